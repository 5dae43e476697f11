"""Walks of computing, saving and loading (see spec/J_Store.tla)."""
import os
import shutil
import tempfile

from ..enc import r, vec
from .netcache import Walk

SEL = {"lap": ["laplacians"], "steps": ["laplacians", "inter_T", "inter_T_lin"], "inter": ["inter_T"]}


def observe_store(sc):
    w = Walk(sc)
    d = tempfile.mkdtemp(dir=os.environ["VH_SCRATCH"])
    try:
        return _walk(sc, w, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _facts(net):
    tb = net.events_table
    out = [type(net).__name__, int(net.num_nodes), int(net.num_events), [int(x) for x in net.node_array],
           sorted((int(k), str(v)) for k, v in (net.node_to_label_dict or {}).items()), float(net.start_time),
           float(net.end_time), bool(net.instantaneous_events), bool(net.is_directed)]
    cols = sorted(tb.columns)
    out.append(cols)
    out.append([tb[c].tolist() for c in cols])
    if hasattr(net, "times"):
        out.append([float(x) for x in net.times])
    return out


def _same(a, b):
    return a[:11] == b[:11] and (len(a) < 12 or len(b) < 12 or a[11] == b[11])


def _bytes(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def _walk(sc, w, d):
    long_names = sc["longnames"]
    real = {}
    for f in ("N", "I", "L", "T", "U", "Iz", "Lz", "Tz", "Uz"):
        gz = f.endswith("z")
        ext = ".gz" if gz else ".pickle"
        base = os.path.join(d, "file_" + f)
        # the name given, and the file it stands for
        given = base + ext if long_names else base
        if gz and long_names and sc["doubleext"]:
            given, path = base + ".pickle", base + ".pickle.gz"
        else:
            path = base + ext
        loadname = path if sc["explicit"] else base
        real[f] = (given, path, loadname)
    facts = _facts(w.net)
    steps = []
    last = w.shown()
    for o in sc["ops"]:
        exc, kept = "", True
        got, meta = [], dict(kStart=-1, kStop=-1, tStart=r(0), tStop=r(0), times=[], num=-1)
        given, path, loadname = real[o["f"]] if "f" in o else ("", "", "")
        before = _bytes(path)
        if before is not None:
            os.utime(path, ns=(1, 1))
        try:
            op = o["op"]
            if w.compute(o):
                pass
            elif op == "save":
                w.net.save(given, **({} if o["sel"] == "all" else dict(matrices_list=SEL[o["sel"]])))
            elif op == "open":
                w.net = type(w.net).load(loadname, **({} if o["sel"] == "all" else dict(matrices_list=SEL[o["sel"]])))
            elif op.startswith("save"):
                kw = {}
                if o["l"] != "all":
                    kw["lamda"] = w.rates[o["l"]]
                if o["rnd"] == "none":
                    kw["round_zeros"] = False
                elif o["rnd"] == "coarse":
                    kw["tol"] = 3e-4
                if o["f"].endswith("z"):
                    kw["compressed"] = True
                if op in ("saveI", "saveL"):
                    if o["delta"]:
                        kw["save_delta"] = True
                    # what they do when they are not told differs
                    if o["rep"] != (op == "saveL") or not sc["explicit"]:
                        kw["replace_existing"] = o["rep"]
                {"saveI": w.net.save_inter_T, "saveL": w.net.save_inter_T_lin, "saveT": w.net.save_T,
                 "saveTL": w.net.save_T_lin}[op](given, **kw)
            # what can be read back: after a load, and right after a save
            if op in ("saveI", "saveL", "loadI", "saveT", "saveTL", "loadT"):
                ret = (w.net.load_inter_T if op in ("saveI", "saveL", "loadI") else w.net.load_T)(loadname)
                got = w.dicts(*(ret.get(a) for a in ("inter_T", "T", "inter_T_lin", "T_lin")), [])
                meta = dict(kStart=int(ret["_k_start_laplacians"]), kStop=int(ret["_k_stop_laplacians"]),
                            tStart=r(ret["_t_start_laplacians"]), tStop=r(ret["_t_stop_laplacians"]),
                            times=vec(ret["times_k_start_to_k_stop+1"]), num=int(ret["num_nodes"]))
            elif op == "save":
                other = type(w.net).load(loadname)
                got = w.shown(other)
                kept = _same(_facts(other), facts)
        except Exception as e:      # noqa: BLE001
            exc = type(e).__name__
        now = w.shown()
        written = _bytes(path) != before or (before is not None and os.stat(path).st_mtime_ns != 1)
        steps.append(dict(exc=exc, shown=now, same=now == last, written=bool(written and path),
                          there=bool(path and os.path.exists(path)), got=got, meta=meta,
                          netKept=kept and _same(_facts(w.net), facts)))
        last = now
    return dict(pool=w.pool, steps=steps)
