"""Simulations of contacts."""
import numpy as np

from .enc import mat, r
from .gen_net import rng

MC = ('CONSTANTS\n N = %d\n K = %d\n Horizon = %d\n Waits = {1,2}\n Durations = {%s}\n Allowed <- %s\n'
      'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
      'INVARIANTS InOrderOfEnding RecordedOnce NeverAlone NotTwiceAtOnce AllEndedAreThere StatesAgree Clock\n')


def probs(rnd, g, zero=True):
    P = np.array([[rnd.choice([0.0, 0.2, 0.5, 1.0]) for _ in range(g)] for _ in range(g)])
    for i in range(g):
        if P[i].sum() == 0 and not (zero and rnd.random() < 0.5):
            P[i, rnd.randrange(g)] = 1.0
        if P[i].sum() > 0:
            P[i] /= P[i].sum()
    return P


def base(rnd, kind):
    n = rnd.choice([1, 2, 3, 4, 5, 7])
    g = rnd.randint(1, min(n, 3))
    groups = list(range(g)) + [rnd.randrange(g) for _ in range(n - g)]
    rnd.shuffle(groups)
    method = rnd.choice(["random_uniform", "random_uniform_within_group", "block_probs", "block_probs_mod"])
    order = list(range(n))
    if rnd.random() < 0.4:
        rnd.shuffle(order)
    t0 = rnd.choice([0.0, 0.0, 0.0, 5.5, 1000.0, -20.0])
    length = rnd.choice([3.0, 6.0, 10.0])
    modulated = rnd.random() < 0.5

    def params(lo, hi):
        out = []
        for _ in range(2):
            row = []
            for i in range(n):
                row.append([r(rnd.choice([0.0, 0.0, 0.3 * i, 0.1 + rnd.random()])), r(rnd.uniform(lo, hi))])
            out.append(row)
        return out
    return dict(kind=kind, n=n, k=rnd.choice([1, 1, 2, 3]), groups=groups, method=method, order=order,
                tStart=r(t0), tStart0=t0 == 0.0 and rnd.random() < 0.5, tEnd=r(t0 + length),
                switch=r(t0 + length * rnd.uniform(0.2, 0.8)), modulated=modulated,
                inter=params(0.05, 2.0), activ=params(0.2, 2.0),
                probs=[mat(probs(rnd, g)), mat(probs(rnd, g))], factor=r(rnd.choice([1.0, 3.0])),
                ignored=[[r(rnd.choice([0.0, 0.5])), r(rnd.choice([0.1, 4.0]))] for _ in range(2)], aslist=rnd.random() < 0.4, seed=rnd.randrange(2**31),
                allStates=rnd.random() < 0.7, dtStates=rnd.random() < 0.5, dt=r(rnd.choice([0.5, 1.0, 2.5])))


def freq(rnd):
    n = rnd.choice([4, 6])
    g = 2
    groups = [i % g for i in range(n)]
    sc = base(rnd, "freq")
    method = rnd.choice(["random_uniform", "random_uniform_within_group", "block_probs", "block_probs_mod"])
    P = probs(rnd, g, zero=False)
    scales = [rnd.uniform(0.0005, 0.002) for _ in range(n)]
    want = np.zeros((n, n))
    size = [groups.count(x) for x in range(g)]
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            gi, gj = groups[i], groups[j]
            if method == "random_uniform":
                want[i, j] = 1 / (n - 1)
            elif method == "random_uniform_within_group":
                want[i, j] = 1 / (size[gi] - 1) if gi == gj else 0
            else:
                want[i, j] = P[gi, gj] / (size[gj] - (gi == gj))
    # what the functions of time replace
    ignored = [r(rnd.uniform(0.003, 0.01)), r(rnd.uniform(0.003, 0.01))]
    sc.update(n=n, groups=groups, method=method, order=list(range(n)), k=1, tStart=r(0.0), tStart0=False, tEnd=r(250.0),
              modulated=rnd.random() < 0.5, ignored=[ignored, [r(0.4), r(2.0)]], switch=r(1e9), probs=[mat(P), mat(P)],
              inter=[[[r(0.0), r(s)] for s in scales]] * 2, activ=[[[r(0.0), r(0.5)] for _ in range(n)]] * 2,
              want=mat(want), wait=r(0.5), scales=[r(s) for s in scales])
    return sc


def synth_suites(ctx, n_sim, n_freq):
    rnd = rng(ctx, "synth")
    ctx.model("MC_Contacts", MC % (2, 1, 4, "1,3", "Everybody"), name="Contacts: 2 individuals, horizon 4")
    ctx.model("MC_Contacts", MC % (3, 2, 2, "1,2", "Groups"), name="Contacts: 3 individuals, 2 contacts each, horizon 2")
    if ctx.thorough:
        ctx.model("MC_Contacts", MC % (3, 1, 3, "1,2", "Groups"), name="Contacts: 3 individuals, horizon 3", timeout=1500)
    ctx.suite("simulations", "synth", "J_Contacts", "VSim", [base(rnd, "sim") for _ in range(n_sim)], step_timeout=60)
    ctx.suite("frequencies", "synth", "J_Contacts", "VFreq", [freq(rnd) for _ in range(n_freq)], step_timeout=120)
