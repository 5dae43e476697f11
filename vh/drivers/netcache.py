"""Walks of computations on one network object (see spec/J_NetCache.tla)."""
import os
import pickle
import tempfile

from ..enc import mat, unr
from .net import _bounds, build


def _num(x):
    x = unr(x)
    return int(x) if x == int(x) else x


class Walk:
    """A network, the computations on it, and the matrices that can be read."""

    def __init__(self, sc):
        self.sc = sc
        self.net = build(sc)
        self.rates = {k: unr(x) for k, x in zip(sc["lnames"], sc["rates"])}
        self.tss = {k: _num(x) for k, x in zip(sc["tnames"], sc["tss"])}
        self.wins = {k: _bounds(sc, w) for k, w in zip(sc["wnames"], sc["windows"])}
        self.pool, self.index = [], {}

    def put(self, kind, l, t, ms, out):
        ms = [mat(m) for m in ms]
        h = repr(ms)
        if h not in self.index:
            self.pool.append(ms)
            self.index[h] = len(self.pool)
        out.append([kind, l, t, self.index[h]])

    @staticmethod
    def name(table, v):
        for k, x in table.items():
            if x == v:
                return k
        return "?"

    def dicts(self, inter, T, lin, Tlin, out):
        for d, kind in ((inter, "inter"), (T, "T")):
            for lam, ms in (d or {}).items():
                self.put(kind, self.name(self.rates, lam), "-", ms if isinstance(ms, list) else [ms], out)
        for d, kind in ((lin, "lin"), (Tlin, "Tlin")):
            for lam, e in (d or {}).items():
                for ts, ms in e.items():
                    self.put(kind, self.name(self.rates, lam), self.name(self.tss, ts),
                             ms if isinstance(ms, list) else [ms], out)
        return sorted(out)

    def shown(self, net=None):
        net = net or self.net
        out = []
        if hasattr(net, "laplacians"):
            self.put("lap", "-", "-", net.laplacians, out)
        if hasattr(net, "adjacencies"):
            self.put("adj", "-", "-", net.adjacencies, out)
        return self.dicts(*(getattr(net, a, None) for a in ("inter_T", "T", "inter_T_lin", "T_lin")), out)

    def compute(self, o):
        net, sc = self.net, self.sc
        if o["op"] == "lap":
            net.compute_laplacian_matrices(save_adjacencies=o["adj"], **self.wins[o["w"]])
        elif o["op"] == "step":
            kw = dict(lamda=self.rates[o["l"]], use_sparse_stoch=o["l"] in sc["compact"] if "compact" in sc else sc["sparse"])
            if not hasattr(net, "laplacians"):
                kw.update(self.wins[o["w"]])
            if not sc["inst"]:
                kw["fix_tau_k"] = o["fix"]
            if o["kind"] == "lin":
                net.compute_lin_inter_transition_matrices(t_s=self.tss[o["t"]], **kw)
            else:
                net.compute_inter_transition_matrices(**kw)
        elif o["op"] == "cum":
            kw = dict(lamda=self.rates[o["l"]], reverse_time=o["rev"], save_intermediate=o["keep"])
            if o["kind"] == "Tlin":
                net.compute_lin_transition_matrices(t_s=self.tss[o["t"]], **kw)
            else:
                if o["tol"] == "tol":
                    kw["tol"] = 1e-9
                net.compute_transition_matrices(**kw)
        else:
            return False
        return True


def observe_cache(sc):
    w = Walk(sc)
    steps = []
    last = []
    for o in sc["ops"]:
        exc = ""
        try:
            if w.compute(o):
                pass
            elif o["op"] == "restore":
                fd, path = tempfile.mkstemp(dir=os.environ["VH_SCRATCH"])
                os.close(fd)
                w.net.save(path)
                w.net = type(w.net).load(path)
                os.unlink(path)
                os.unlink(path + ".pickle")
            elif o["op"] == "pickle":
                w.net = pickle.loads(pickle.dumps(w.net))
        except Exception as e:      # noqa: BLE001
            exc = type(e).__name__
        now = w.shown()
        steps.append(dict(exc=exc, shown=now, sameKeys=[x[:3] for x in now] == [x[:3] for x in last]))
        last = now
    return dict(pool=w.pool, steps=steps)
