"""Comparison of clusterings (see spec/J_Compare.tla)."""
import copy

import numpy as np

from flowstab import network_clustering as nc
from flowstab.parallel_clustering import compute_parallel_nvi

from ..enc import r, vec
from .net import _try


# what the clusters are called in a dictionary: equal labels need not be the same object
LABELS = {"": lambda k: k, "large": lambda k: k + 1000, "text": lambda k: f"cluster {k}"}


def clusters(f, how, node=lambda i: i):
    """f in one of the accepted forms; how: form, names (of clusters), order (of nodes)"""
    n = len(f)
    names = how["names"]                    # cluster k is called names[k]
    if how["form"] == "dict":
        return {node(i): LABELS[how.get("labels", "")](names[f[i]]) for i in how["order"]}
    cl = [set() for _ in range(max(names) + 1)]
    for i in how["order"]:
        cl[names[f[i]]].add(node(i))
    if not how["gaps"]:
        cl = [c for c in cl if c]
    if how["form"] == "lists":
        return [list(c) for c in cl]
    if how["form"] == "partition":
        return nc.Partition(n, cluster_list=cl)
    return cl


# what the nodes are called (partitions number theirs from 0)
NAMES = {"": lambda i: i, "shifted": lambda i: i + 100, "spread": lambda i: 7 * i - 40, "text": lambda i: f"node {i}"}


def _plain(x):
    return copy.deepcopy(x.cluster_list) if isinstance(x, nc.Partition) else copy.deepcopy(x)


def observe_compare(sc):
    out = {}
    for name, fct in (("jac", nc.jaccard_distance), ("nmi", nc.norm_mutual_information),
                      ("nvi", nc.norm_var_information)):
        def one(name=name, fct=fct):
            ha, hb = sc[name + "How"]
            node = NAMES["" if "partition" in (ha["form"], hb["form"]) else sc["nodes"]]
            a, b = clusters(sc["f"], ha, node), clusters(sc["g"], hb, node)
            a0, b0 = _plain(a), _plain(b)
            o = dict(xy=r(fct(a, b)), yx=r(fct(b, a)))
            o["kept"] = bool(_plain(a) == a0 and _plain(b) == b0)
            return o
        out[name] = _try(one)
    return out


def observe_many(sc):
    """Each node of f and g stands for many."""
    R = sc["copies"]
    out = {}
    for name, fct in (("nmi", nc.norm_mutual_information), ("nvi", nc.norm_var_information)):
        def one(fct=fct):
            ab = []
            for f in (sc["f"], sc["g"]):
                cl = [set() for _ in range(max(f) + 1)]
                for i, c in enumerate(f):
                    cl[c].update(range(i * R, (i + 1) * R))
                ab.append(cl)
            a, b = ab
            sizes = [[len(c) for c in x] for x in ab]
            return dict(xy=r(fct(a, b)), yx=r(fct(b, a)), kept=sizes == [[len(c) for c in x] for x in ab])
        out[name] = _try(one)
    return out


def observe_average(sc):
    ls = [clusters(f, h) for f, h in zip(sc["list"], sc["hows"])]
    n = len(sc["list"][0])
    np.random.seed(sc["seed"])
    o = dict(avg=r(nc.avg_norm_var_information(ls)), hasSample=sc["samples"] > 0)
    if sc["samples"] > 0:
        o["sample"] = r(nc.avg_norm_var_information(ls, num_samples=sc["samples"]))
    o["pairs"] = vec(compute_parallel_nvi(ls, n, nproc=1, verbose=False))
    return o


def observe_sort(sc):
    a, b = [set(x) for x in sc["clusters"]], [set(x) for x in sc["model"]]
    kw = {} if sc["thr"] == "" else {"thresh_ratio": float(sc["thr"])}
    s = nc.sort_clusters(a, b, **kw)
    return dict(sorted=[sorted(int(x) for x in c) for c in s],
                kept=a == [set(x) for x in sc["clusters"]] and b == [set(x) for x in sc["model"]])
