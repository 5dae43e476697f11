"""Walks of computations on one network object, generated by TLC from NetCache."""
import json

from . import tlc
from .enc import r
from .gen_net import WHOLE, _unit, rand_history, rng, scenario, window

CFG = ('CONSTANTS\n Windows = {%s}\n Rates = {%s}\n TSs = {%s}\n MaxLen = %d\n EmitWalks = %s\n'
       'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n')


def netcache_suite(ctx, number, length=12):
    rnd = rng(ctx, "netcache")
    ctx.model("MC_NetCache", CFG % ('"w1","w2"', '"a"', '"t10"', 0, "FALSE"),
              name="NetCache: remembered parameters keep all matrices current (one rate)")
    if ctx.thorough:
        ctx.model("MC_NetCache", CFG % ('"w1","w2"', '"a","b"', '"t10"', 0, "FALSE"),
                  name="NetCache (two rates)", timeout=1500)
    res = ctx.model("MC_NetCache", CFG % ('"w1","w2","w3"', '"a","b"', '"t10","t3"', length, "TRUE"),
                    name="NetCache: generated walks", workers=1,
                    extra=["-simulate", f"num={number}", "-depth", str(length + 2), "-seed", str(ctx.seed)])
    sc = [cached_network(rnd, "cache", json.loads(tlc.unquote(ln))) for ln in res.lines("W")]
    ctx.suite("network_walks", "netcache", "J_NetCache", "VCache", sc, step_timeout=120)


def cached_network(rnd, kind, ops):
    small = rnd.random() < 0.35
    if small:
        # walkers that rarely make several jumps: entries of very different size
        h = [[i, i + 1, 2 * rnd.randrange(3), 2 * rnd.randint(4, 6)] for i in range(3)]
        h += rand_history(rnd, n=4, m=rnd.randint(1, 3), span=4)
    else:
        h = rand_history(rnd, n=rnd.randint(2, 4), m=rnd.randint(2, 6))
    s = scenario(rnd, kind, h, inst=rnd.random() < 0.2, merge=False, form=rnd.choice(["lists", "table"]))
    unit = 1.0 if s["inst"] else _unit(s)
    s["sparse"] = rnd.random() < 0.5
    s["windows"] = [WHOLE, window(rnd, h, adj=False), window(rnd, h, adj=False, ordered=True)]
    s["wnames"] = ["w1", "w2", "w3"]
    a = rnd.choice([0.0005, 0.001, 0.01, 0.02, 0.05] if small else [0.1, 0.5, 1.0, 3.0])
    s["rates"] = [r(a / unit), r(a * rnd.choice([1.004, 1 + 4e-6, 4, 4]) / unit)]
    s["lnames"] = ["a", "b"]
    s["tss"] = [r(10), r(rnd.choice([3, 2.5]))]
    s["tnames"] = ["t10", "t3"]
    if s["inst"]:
        for o in ops:
            if o["op"] == "step":
                o["fix"] = True
    s["ops"] = ops
    return s
