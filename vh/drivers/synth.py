"""Simulations of contacts (see spec/J_Contacts.tla).  The individuals log what
they draw."""
import random

import numpy as np

from flowstab.synth_temp_network import Individual, SynthTempNetwork

from ..enc import r, unmat, unr, vec


def setup(sc, log_act, log_dur):
    class Logged(Individual):
        def draw_inter_duration(self, time=None):
            v = super().draw_inter_duration(time)
            log_dur.append((int(self.ID), time, v))
            return v

        def draw_activ_time(self, time=None):
            v = super().draw_activ_time(time)
            log_act.append((int(self.ID), time, v))
            return v

    switch = unr(sc["switch"])
    people = []
    for i in sc["order"]:
        kw = dict(group=sc["groups"][i])
        for w, what in enumerate(("inter", "activ")):
            p0, p1 = ([unr(x) for x in sc[what][m][i]] for m in (0, 1))
            if sc["modulated"]:
                kw[what + "_distro_loc"], kw[what + "_distro_scale"] = (unr(x) for x in sc["ignored"][w])
                kw[what + "_distro_mod_func"] = lambda t, p0=p0, p1=p1: tuple(p1 if t >= switch else p0)
            else:
                kw[what + "_distro_loc"], kw[what + "_distro_scale"] = p0
        people.append(Logged(i, **kw))
    kw = dict(t_start=unr(sc["tStart"]), t_end=unr(sc["tEnd"]), next_event_method=sc["method"])
    if sc["tStart0"]:
        del kw["t_start"]
    if sc["k"] != 1:
        kw["num_interactions_per_activation"] = sc["k"]
    P = [unmat(m) for m in sc["probs"]]
    if sc["method"] == "block_probs":
        f = unr(sc["factor"])
        kw["inter_group_probs"] = (P[0] * f).tolist() if sc["aslist"] else P[0] * f
    if sc["method"] == "block_probs_mod":
        kw["block_prob_mod_func"] = lambda t: P[1] if t >= switch else P[0]
    np.random.seed(sc["seed"])
    random.seed(sc["seed"])
    return SynthTempNetwork(people, **kw)


def _states(d):
    out = []
    for t in sorted(d):
        m = d[t].tocoo()
        out.append([r(t), [[int(i), int(j)] for i, j, v in zip(m.row, m.col, m.data) if v]])
    return out


def observe_sim(sc):
    act, dur = [], []
    sim = setup(sc, act, dur)
    kw = {}
    if sc["allStates"]:
        kw["save_all_states"] = True
    if sc["dtStates"]:
        kw.update(save_dt_states=True, dt=unr(sc["dt"]))
    sim.run(**kw)
    return dict(act=[[i, r(t), r(v)] for i, t, v in act], dur=[[i, r(t), r(v)] for i, t, v in dur],
                recs=[[int(a), int(b), r(s), r(e)] for a, b, s, e in
                      zip(sim.indiv_sources, sim.indiv_targets, sim.start_times, sim.end_times, strict=True)],
                states=_states(sim.all_states) if sc["allStates"] else [],
                saved=_states(sim.saved_states) if sc["dtStates"] else [])


def observe_freq(sc):
    act, dur = [], []
    sim = setup(sc, act, dur)
    sim.run()
    n = sc["n"]
    counts = np.zeros((n, n), dtype=int)
    sums = np.zeros(n)
    for a, b, s, e in zip(sim.indiv_sources, sim.indiv_targets, sim.start_times, sim.end_times):
        counts[a, b] += 1
        sums[a] += e - s
    tot = counts.sum(1)
    waits = [[v for k, _, v in act if k == i] for i in range(n)]
    return dict(counts=counts.tolist(), totals=tot.tolist(), meanDur=vec(sums / np.maximum(tot, 1)),
                waits=[len(w) for w in waits], meanWait=vec(np.array([np.mean(w) if w else 0.0 for w in waits])))
