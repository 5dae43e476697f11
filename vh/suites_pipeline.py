import json
import random

from . import tlc

BASE = 'CONSTANTS\n Nets = {"A","B"}\n Bounds = {%s}\n Scales = {"s1","s2","s12","sd"}\n'
SMALL = 'CONSTANTS\n Nets = {"A","B"}\n Bounds = {"none","b1"}\n Scales = {"s1","s12"}\n'


def graph(ctx, full):
    consts = (BASE % '"none","b1","b2"') if full else SMALL
    res = ctx.model("MC_Pipeline", consts + " EmitEdges = TRUE\nINIT FInit\nNEXT FNext\n"
                    "CHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Fresh Ordered Guidance\n",
                    name="Pipeline (state graph)", timeout=600)
    ctx.model("MC_Pipeline", SMALL + " EmitEdges = FALSE\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n"
              "INVARIANT NeverStuck\nPROPERTY Finishes\n", name="Pipeline (following the guidance finishes)", timeout=600)
    edges = {}
    for ln in res.lines("E"):
        e = json.loads(tlc.unquote(ln))
        f = json.dumps(e["f"], sort_keys=True)
        t = json.dumps(e["t"], sort_keys=True)
        edges.setdefault(f, {})[json.dumps(e["o"], sort_keys=True)] = t
    return edges


PROGRESS = ["set_temporal_network", "lap", "inter", "clus", "louvain"]


def _initial(edges):
    return next(s for s in edges if json.loads(s)["stage"] == 0 and json.loads(s)["net"] == "none"
                and json.loads(s)["isset"] in (["t_start", "t_stop"], ["t_stop", "t_start"])
                and json.loads(s)["tstart"] == json.loads(s)["tstop"] == "none"
                and json.loads(s)["scale"] == "none")


def walks(ctx, edges, number, length, cover=None):
    """Walks along the edges of the specification's state graph, preferring edges
    that no walk has taken yet and steps that make progress."""
    rnd = random.Random(ctx.seed * 7919 + number)
    init = _initial(edges)
    covered = cover if cover is not None else set()
    weight = {"lap": 6, "inter": 5, "clus": 6, "louvain": 4, "net": 2, "start": 3, "stop": 3, "scale": 4,
              "dir": 4, "load": 2, "netbad": 0.4, "reject": 0.7, "pickle": 0.7, "give": 0.5, "new": 0.5, "other": 0.3}
    per_op = {}
    out = []
    dec = {}
    for _ in range(number):
        s = init
        ops = []
        for _ in range(length):
            opts = list(edges[s].items())
            if s not in dec:
                dec[s] = [json.loads(o) for o, _ in opts]
                cnt = {}
                for d in dec[s]:
                    cnt[d["op"]] = cnt.get(d["op"], 0) + 1
                per_op[s] = [weight[d["op"]] / cnt[d["op"]] for d in dec[s]]
            w = [p * (3.0 if (s, o) not in covered else 1.0) for p, (o, _) in zip(per_op[s], opts)]
            # the steps of the pipeline get a push
            k = rnd.choices(range(len(opts)), w)[0]
            o, t = opts[k]
            covered.add((s, o))
            ops.append(dec[s][k])
            s = t
        out.append({"kind": "walk", "ops": ops})
    total = sum(len(v) for v in edges.values())
    ctx.assumptions.append(f"pipeline walks take {len(covered)} of {total} edges of the state graph")
    return out


def driven(ctx, edges, number, rounds):
    """Walks that alternate a few arbitrary operations with the shortest way to a late
    stage, so that everything is computed again after all kinds of changes."""
    rnd = random.Random(ctx.seed * 104729 + number)
    stage = {s: json.loads(s)["stage"] for s in edges}
    ways = {}
    back = {}
    for s, es in edges.items():
        for o, t in es.items():
            back.setdefault(t, []).append((s, o))
    for goal in (3, 4, 5):
        dist = {s: 0 for s in edges if stage[s] >= goal}
        todo = list(dist)
        for t in todo:
            for s, _ in back.get(t, ()):
                if s not in dist:
                    dist[s] = dist[t] + 1
                    todo.append(s)
        ways[goal] = dist
    init = _initial(edges)
    changes = ("net", "start", "stop", "scale", "dir", "load", "inter", "netbad", "reject", "pickle", "lap", "clus", "louvain", "give", "new", "other")
    weight = {"netbad": 0.2, "reject": 0.3, "pickle": 0.3, "inter": 2, "scale": 3, "start": 2, "stop": 2, "dir": 3, "lap": 0.6,
              "clus": 0.8, "louvain": 0.5, "net": 1.5, "load": 1.0, "give": 0.4, "new": 0.5, "other": 0.3}
    out = []
    for _ in range(number):
        s, ops = init, []
        for _ in range(rounds):
            goal = rnd.choice([3, 4, 4, 5, 5, 5])
            dist = ways[goal]
            while dist[s] > 0:
                good = [(o, t) for o, t in edges[s].items() if dist[t] < dist[s]]
                o, t = rnd.choice(good)
                ops.append(json.loads(o))
                s = t
            for _ in range(rnd.randint(1, 3)):
                c = rnd.choices(changes, [weight[x] for x in changes])[0]
                opts = [(o, t) for o, t in edges[s].items() if json.loads(o)["op"] == c]
                if opts:
                    o, t = rnd.choice(opts)
                    ops.append(json.loads(o))
                    s = t
        while ways[5][s] > 0:
            o, t = rnd.choice([(o, t) for o, t in edges[s].items() if ways[5][t] < ways[5][s]])
            ops.append(json.loads(o))
            s = t
        out.append({"kind": "walk", "ops": ops})
    return out


def options(ctx, scenarios):
    """The steps with some of their own options."""
    rnd = random.Random(ctx.seed * 31337 + 1)
    for sc in scenarios:
        sc["ops"] = [dict(o) for o in sc["ops"]]
        for o in sc["ops"]:
            if o["op"] == "inter":
                for name, p in (("fix", 0.25), ("sparse", 0.25), ("dense", 0.25)):
                    if rnd.random() < p:
                        o[name] = rnd.random() < 0.7
            elif o["op"] == "clus":
                for name in ("grid", "p1"):
                    if rnd.random() < 0.2:
                        o[name] = True
    return scenarios


def pipeline_suite(ctx, n_quick, n_thorough, length, facet):
    full = True
    edges = graph(ctx, full)
    n = n_thorough if ctx.thorough else n_quick
    sc = options(ctx, walks(ctx, edges, n, length) + driven(ctx, edges, n // 2, 5))
    ctx.suite("pipeline_walks", "pipeline", "J_Pipeline", "V0", sc, constants=BASE % '"none","b1","b2"' + f' Facet = "{facet}"\n',
              step_timeout=120)
