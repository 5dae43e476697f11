"""Histories of contact events: enumerated by TLC (MC_TempNet) and random ones."""
import json
import random

from .runner import variants
from . import tlc
from .enc import r

NET_INV = "INVARIANTS SweepAgrees NeverNegative AllEnded PiecewiseConstant MergeSound RelabelSound SnapSound\n"


def model_histories(ctx, max_ev=None, emit=True):
    """All histories up to the bound; the bookkeeping invariants are checked on
    the way."""
    m = max_ev or (3 if ctx.thorough else 2)
    res = ctx.model("MC_TempNet", "CONSTANTS\n Nodes = {0,1,2}\n Ticks = {0,2,4,6}\n MaxEv = %d\n EmitHist = %s\n"
                    "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n%s" % (m, "TRUE" if emit else "FALSE", NET_INV),
                    name=f"TempNet sweep, histories of up to {m} events of 3 nodes on 4 times", timeout=800)
    seen = set()
    out = []
    for ln in res.lines("H"):
        t = tlc.unquote(ln)
        if t not in seen:
            seen.add(t)
            out.append(json.loads(t))
    out.sort()
    return out


UNITS = [(0.0, 1.0, 0), (0.0, 0.5, 1), (-1.0, 0.25, 3), (1353302420.0, 20.0, 0), (0.0, 0.1, 9), (7.5, 0.001, 999),
         (0.0, 1e-7, 9999999), (0.0, 3e6, 0)]


def rand_history(rnd, n=None, m=None, dup=0.35, span=None):
    """Events of n nodes on even ticks (odd ticks are for window bounds)."""
    n = n or rnd.randint(2, 7)
    m = m or rnd.randint(1, 14)
    span = span or rnd.randint(2, 3 + m)
    ev = []
    if n > 3 and rnd.random() < 0.15:
        # rounds of the same length and shape with other partners
        a, length = 0, 2 * rnd.randint(1, 2)
        pairs = [(i, i + 1) for i in range(0, n - 1, 2)] if rnd.random() < 0.7 else [(i, (i + 1) % n) for i in range(n)]
        for _ in range(rnd.randint(2, 5)):
            ix = rnd.sample(range(n), n)
            ev += [[ix[i], ix[j], a, a + length] for i, j in pairs]
            a += length
        return ev
    for _ in range(m):
        if ev and rnd.random() < dup:
            s, t = ev[rnd.randrange(len(ev))][:2]
            if rnd.random() < 0.5:
                s, t = t, s
            if rnd.random() < 0.25:
                # the same start or a start at the end of the other one
                o = ev[rnd.randrange(len(ev))]
                a = rnd.choice([o[2], o[3]])
                b = a + 2 * rnd.randint(1, span)
                ev.append([s, t, a, b])
                continue
        else:
            s, t = rnd.sample(range(n), 2)
        a = 2 * rnd.randrange(span)
        b = a + 2 * (rnd.randint(1, span) if rnd.random() < 0.5 else rnd.randint(1, 2))
        ev.append([s, t, a, b])
    return ev


def long_history(rnd):
    """More than a thousand intervals of a few nodes."""
    m = rnd.randint(520, 600)
    times = rnd.sample(range(0, 2 * m + 40), 2 * m)
    ev = []
    for k in range(m):
        s, t = rnd.sample(range(rnd.choice([3, 4])), 2)
        a, b = sorted((times[2 * k], times[2 * k + 1])) if rnd.random() < 0.02 else (times[2 * k], times[2 * k] + rnd.randint(1, 3))
        ev.append([s, t, 2 * a, 2 * b])
    return ev


def scatter_labels(rnd, ev):
    """Replace nodes by arbitrary integer labels."""
    nodes = sorted({e[0] for e in ev} | {e[1] for e in ev})
    labels = sorted(rnd.sample(range(0, 60), len(nodes)))
    rnd.shuffle(labels)
    m = dict(zip(nodes, labels))
    return [[m[e[0]], m[e[1]], e[2], e[3]] for e in ev]


def compact(ev):
    nodes = sorted({e[0] for e in ev} | {e[1] for e in ev})
    m = {x: k for k, x in enumerate(nodes)}
    return [[m[e[0]], m[e[1]], e[2], e[3]] for e in ev]


def scenario(rnd, kind, ev, **kw):
    inst = kw.pop("inst", False)
    merge = kw.pop("merge", False)
    off, unit, one = kw.pop("unit", None) or rnd.choice(
        UNITS[:4] if inst else UNITS if kind in ("lap", "construct", "static", "inter") else UNITS[:6])
    form = kw.pop("form", None) or rnd.choice(["lists", "lists", "table", "csv"])
    if inst:
        form = rnd.choice(["lists", "lists", "table"])
        # one unit of time must be a whole number of ticks
        off, unit = rnd.choice([(0.0, 1.0), (0.0, 0.5), (-1.0, 0.25), (1000.0, 0.125)])
        one = int(1 / unit)
    relabel = kw.pop("relabel", None)
    if relabel is None:
        relabel = rnd.random() < 0.75
    if relabel:
        ev = scatter_labels(rnd, ev)
        lk = rnd.choice(["int", "int", "str", "np", "float"])
    else:
        ev = compact(ev)
        lk = "int"
    sc = dict(kind=kind, ev=ev, off=r(off), unit=r(unit), one=one, inst=inst, merge=merge, form=form,
              relabel=relabel, labelkind=lk, hasUid=bool(form != "lists" or (not inst and rnd.random() < 0.7)),
              inttimes=bool(float(unit).is_integer() and float(off).is_integer() and rnd.random() < 0.7))
    if form == "csv" and rnd.random() < 0.3:
        sc["sep"] = ";"
    # the index of the table, and an attribute of that name
    sc["index"] = rnd.choice(["range", "range", "range", "other", "double", "named", "text"])
    sc["indexAttr"] = rnd.random() < 0.12
    sc.update(kw)
    return sc


def window(rnd, ev, adj=None, ordered=False):
    hi = max(e[3] for e in ev)
    lo = min(e[2] for e in ev)
    w = dict(hasStart=rnd.random() < 0.7, hasStop=rnd.random() < 0.7, start=0, stop=0,
             adj=bool(rnd.random() < 0.4) if adj is None else adj)
    a, b = rnd.randint(lo - 1, hi + 1), rnd.randint(lo - 1, hi + 1)
    if a > b and (ordered or rnd.random() < 0.9):
        a, b = b, a
    if ordered:
        a, b = max(min(a, hi - 1), lo), min(max(b, lo + 1), hi)
        if a >= b:
            a, b = lo, hi
    w["near"] = rnd.choice(["", "", "below", "above"])
    if w["hasStart"]:
        w["start"] = a
    if w["hasStop"]:
        w["stop"] = b
    return w


WHOLE = dict(hasStart=False, hasStop=False, start=0, stop=0, adj=False)


def rng(ctx, salt):
    return random.Random((ctx.seed, salt, ctx.prop).__repr__())


def lap_suite(ctx, n_rand, n_enum):
    rnd = rng(ctx, "lap")
    hs = model_histories(ctx)
    pick = hs if len(hs) <= n_enum else rnd.sample(hs, n_enum)
    sc = []
    for h in pick:
        for s in scenario(rnd, "lap", h, inst=rnd.random() < 0.15),:
            s["windows"] = [window(rnd, h) for _ in range(rnd.randint(1, 2))]
            sc.append(s)
    for _ in range(n_rand):
        h = rand_history(rnd)
        s = scenario(rnd, "lap", h, inst=rnd.random() < 0.2, merge=rnd.random() < 0.2)
        if s["inst"]:
            s["merge"] = False
        s["windows"] = [window(rnd, h) for _ in range(rnd.randint(1, 3))]
        sc.append(s)
    ctx.suite("laplacians", "net", "J_TempNet", "VLap", sc)
    sc = []
    for _ in range(n_rand // 12):
        h = rand_history(rnd, n=rnd.randint(5, 16), m=rnd.randint(15, 70), span=rnd.randint(3, 60))
        s = scenario(rnd, "lap", h, inst=rnd.random() < 0.1, merge=False)
        s["windows"] = [window(rnd, h) for _ in range(rnd.randint(1, 3))]
        sc.append(s)
    for _ in range(4 if ctx.thorough else 2):
        h = long_history(rnd)
        s = scenario(rnd, "lap", h, merge=False)
        s["windows"] = [dict(WHOLE, adj=True)]
        sc.append(s)
    ctx.suite("laplacians_of_longer_histories", "net", "J_TempNet", "VLap", sc)


def construct_suite(ctx, n_rand, n_enum):
    rnd = rng(ctx, "construct")
    hs = model_histories(ctx)
    pick = hs if len(hs) <= n_enum else rnd.sample(hs, n_enum)
    sc = [scenario(rnd, "construct", rnd.sample(h, len(h)), inst=rnd.random() < 0.1, merge=rnd.random() < 0.6) for h in pick]
    for _ in range(n_rand):
        h = rand_history(rnd, dup=rnd.choice([0.2, 0.6, 0.85]))
        sc.append(scenario(rnd, "construct", h, inst=rnd.random() < 0.2, merge=rnd.random() < 0.5))
    for s in sc:
        if s["inst"]:
            s["merge"] = False
    ctx.suite("construction", "net", "J_TempNet", "VConstruct", sc)
    sc = []
    for _ in range(n_rand // 12):
        h = rand_history(rnd, n=rnd.randint(4, 20), m=rnd.randint(15, 90), dup=rnd.choice([0.2, 0.6, 0.85]), span=rnd.randint(3, 80))
        sc.append(scenario(rnd, "construct", h, inst=False, merge=rnd.random() < 0.5))
    ctx.suite("no_histories", "net", "J_TempNet", "VRefused",
              [dict(kind="refused", how=h, ev=rand_history(rnd, m=rnd.randint(2, 6)), k=rnd.randrange(4))
               for h in ("lists", "attribute", "missing", "empty", "type", "column", "instantaneous") for _ in range(4)])
    ctx.suite("construction_from_longer_histories", "net", "J_TempNet", "VConstruct", sc)


def static_suite(ctx, n_rand):
    rnd = rng(ctx, "static")
    sc = []
    for _ in range(n_rand):
        h = rand_history(rnd)
        s = scenario(rnd, "static", h)
        s["windows"] = [window(rnd, h, ordered=True) for _ in range(rnd.randint(1, 3))]
        sc.append(s)
    ctx.suite("static_adjacency", "net", "J_TempNet", "VStatic", sc)


def call(rnd, w, unit, lin=None, sparse=None):
    lin = rnd.random() < 0.5 if lin is None else lin
    lam = rnd.choice([0.01, 0.1, 0.5, 1.0, 1.0, 2.0, 5.0, rnd.uniform(0.05, 12), 10 ** rnd.uniform(-6, 2)]) / unit
    fixed = rnd.random() < 0.25
    if fixed:
        # durations of one: no exponentials of huge matrices
        lam = min(lam, 100.0)
    return dict(w=w, lin=lin, sparse=rnd.random() < 0.5 if sparse is None else sparse,
                defaultLamda=not (fixed and unit < 0.01) and rnd.random() < 0.1,
                lamda=r(lam), ts=r(rnd.choice([10, 10, 2, 5, 3.5])), fixTau=fixed,
                denseExpm=rnd.random() < 0.6)


def inter_suite(ctx, n_rand):
    rnd = rng(ctx, "inter")
    sc = []
    for _ in range(n_rand):
        h = rand_history(rnd, n=rnd.randint(2, 6), m=rnd.randint(1, 9))
        s = scenario(rnd, "inter", h, inst=rnd.random() < 0.2, merge=False, form=rnd.choice(["lists", "table"]))
        unit = 1.0 if s["inst"] else _unit(s)
        s["windows"] = [window(rnd, h, adj=False) for _ in range(2)]
        calls = []
        sp = rnd.random() < 0.5
        for k in range(rnd.randint(2, 4)):
            c = call(rnd, 1 if k < 2 else 2, unit, sparse=sp if rnd.random() < 0.8 else not sp)
            if calls and rnd.random() < 0.4:
                # the same rate again, other parameters
                c["lamda"], c["defaultLamda"], c["lin"] = calls[-1]["lamda"], calls[-1]["defaultLamda"], calls[-1]["lin"]
                c["fixTau"] = calls[-1]["fixTau"] if unit < 0.01 else c["fixTau"]
            calls.append(c)
        s["calls"] = calls
        sc.append(s)
    ctx.suite("inter_event_matrices", "net", "J_TempNet", "VInter", variants(sc, 8))
    sc = []
    for k in range(8 if ctx.thorough else 4):
        s = scenario(rnd, "inter", long_history(rnd), merge=False, form="lists", unit=UNITS[k % 3])
        s["windows"] = [WHOLE]
        s["calls"] = [call(rnd, 1, _unit(s), lin=bool(k & 1), sparse=bool(k & 2))]
        sc.append(s)
    ctx.suite("inter_event_matrices_of_long_histories", "net", "J_TempNet", "VInter", sc)
    ctx.suite("interpolations", "net", "J_TempNet", "VWalk", variants([walk(rnd) for _ in range(n_rand // 5)], 8))


def walk(rnd):
    n = rnd.randint(2, 8)
    pairs = [(i, j) for i in range(n) for j in range(i)]
    edges = rnd.sample(pairs, rnd.randint(0 if rnd.random() < 0.05 else 1, min(len(pairs), n + 1)))
    connected = rnd.random() < 0.3
    if connected:
        perm = rnd.sample(range(n), n)
        edges = list({tuple(sorted((perm[i], perm[rnd.randrange(i)]))) for i in range(1, n)} | {tuple(sorted(e)) for e in edges})
    calls = []
    for _ in range(4):
        ts = rnd.choice([10.0, 10.0, 2.0, 3.5, 40.0])
        calls.append(dict(fct=rnd.choice(["stationary", "compact_stationary", "linear", "linear", "compact_linear", "compact_linear"]),
                          pi=rnd.choice(["none", "full", "compact"]), given=bool(edges) and rnd.random() < 0.5,
                          form=rnd.choice(["csr", "csc", "array"]), zeros=rnd.random() < 0.15, ts=r(ts),
                          x=r(rnd.choice([0.0, 1.0, ts, rnd.random(), rnd.uniform(1, ts), rnd.uniform(1, ts), ts + rnd.random()]))))
    if connected:
        calls.append(dict(calls[0], fct="gap"))
    return dict(kind="walk", n=n, edges=[list(e) for e in edges], calls=calls)


def _unit(s):
    from .enc import unr
    return unr(s["unit"])


def cumul_suite(ctx, n_rand):
    rnd = rng(ctx, "cumul")
    sc = []
    for _ in range(n_rand):
        small = rnd.random() < 0.35
        if small:
            # walkers that rarely make several jumps: entries of very different size
            h = [[i, i + 1, 2 * rnd.randrange(3), 2 * rnd.randint(4, 6)] for i in range(rnd.randint(2, 4))]
            h += rand_history(rnd, n=4, m=rnd.randint(1, 3), span=4)
        else:
            h = rand_history(rnd, n=rnd.randint(2, 6), m=rnd.randint(1, 9))
        s = scenario(rnd, "cumul", h, inst=rnd.random() < 0.15, merge=False, form="lists")
        unit = 1.0 if s["inst"] else _unit(s)
        s["windows"] = [window(rnd, h, adj=False) for _ in range(2)]
        calls = []
        sp = rnd.random() < 0.5
        for k in range(rnd.randint(2, 4)):
            c = call(rnd, 1 if k < 2 else 2, unit, sparse=sp)
            if calls and rnd.random() < 0.5:
                for x in ("lamda", "defaultLamda", "lin", "ts", "fixTau"):
                    c[x] = calls[-1][x]
            c.update(reverse=rnd.random() < 0.5, keep=rnd.random() < 0.7, dflt=rnd.random() < 0.5, csr=rnd.random() < 0.4,
                     hasTol=(not c["lin"]) and rnd.random() < 0.35)
            c["tol"], c["tolDigits"] = rnd.choice([(r(1e-9), 6), (r(1e-6), 3), (r(1e-4), 1)])
            if small:
                c["hasTol"] = not c["lin"] and rnd.random() < 0.7
                if rnd.random() < 0.7:
                    c["lamda"], c["defaultLamda"] = r(rnd.choice([0.01, 0.03, 0.05]) / unit), False
                if rnd.random() < 0.6:
                    # so coarse that only the rows are judged
                    c["tol"], c["tolDigits"] = r(rnd.choice([1e-3, 1e-2])), 0
            calls.append(c)
        s["calls"] = calls
        sc.append(s)
    ctx.suite("cumulative_matrices", "net", "J_TempNet", "VCumul", variants(sc, 6))
    sc = []
    for k in range(8 if ctx.thorough else 4):
        s = scenario(rnd, "cumul", long_history(rnd), merge=False, form="lists", unit=UNITS[k % 3])
        s["windows"] = [WHOLE]
        c = call(rnd, 1, _unit(s), lin=bool(k & 1), sparse=bool(k & 2))
        c.update(reverse=rnd.random() < 0.5, keep=rnd.random() < 0.7, dflt=rnd.random() < 0.5, csr=rnd.random() < 0.4, hasTol=False, tol=r(1e-9), tolDigits=6)
        s["calls"] = [c]
        sc.append(s)
    ctx.suite("cumulative_matrices_of_long_histories", "net", "J_TempNet", "VCumul", sc)
