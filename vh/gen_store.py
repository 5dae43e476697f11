"""Walks of computing, saving and loading, generated by TLC from Store."""
import json

from .runner import variants
from . import tlc
from .gen_net import rng
from .gen_netcache import cached_network

CFG = ('CONSTANTS\n Windows = {%s}\n Rates = {%s}\n TSs = {%s}\n Files = {%s}\n Rounds = {%s}\n Sparse = {%s}\n MaxLen = %d\n'
       ' EmitWalks = %s\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS FilesConsistent MemoryConsistent\n')


def store_suite(ctx, number, length=16):
    rnd = rng(ctx, "store")
    for f in ('"I","T"',) + (('"N","I"',) if ctx.thorough else ()):
        ctx.model("MC_Store", CFG % ('"w1","w2"', '"a"', '"t10"', f, '"none"', "", 0, "FALSE"),
                  name=f"Store: files {f}", timeout=1500)
    sc = []
    for sparse in ([], ["a", "b"], ["a"]):
        res = ctx.model("MC_Store", CFG % ('"w1","w2","w3"', '"a","b"', '"t10","t3"',
                                           ",".join(f'"{x}"' for x in ("N", "I", "Iz", "L", "Lz", "T", "Tz", "U", "Uz")),
                                           '"none","std","coarse"', ",".join(f'"{x}"' for x in sparse), length, "TRUE"),
                        name="Store: generated walks", workers=1,
                        extra=["-simulate", f"num={number}", "-depth", str(length + 2), "-seed", str(ctx.seed * 3 + len(sparse))])
        for ln in res.lines("W"):
            s = cached_network(rnd, "store", json.loads(tlc.unquote(ln)))
            s["compact"] = sparse
            s["longnames"] = rnd.random() < 0.5
            s["doubleext"] = rnd.random() < 0.3
            s["explicit"] = rnd.random() < 0.5
            sc.append(s)
    ctx.suite("store_walks", "store", "J_Store", "VStore", variants(sc, 10), step_timeout=120)
