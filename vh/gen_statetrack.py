"""Declarations of classes with registered steps, and walks with their objects."""
from .gen_net import rng


def declaration(rnd):
    k = rnd.randint(2, 6)
    states = sorted(rnd.sample(range(0, 20), k)) if rnd.random() < 0.4 else list(range(k))
    chain = rnd.random() < 0.5
    meths = []
    if chain:
        for a, b in zip(states, states[1:]):
            meths.append(dict(min=a, next=b))
        if rnd.random() < 0.4:      # another step into a state, as set_... of a parameter
            a = rnd.randrange(k - 1)
            meths.append(dict(min=states[a], next=states[rnd.randint(0, a + 1)]))
    else:
        for _ in range(rnd.randint(1, 5)):
            meths.append(dict(min=rnd.choice(states[:-1] if rnd.random() < 0.9 else states), next=rnd.choice(states)))
    meths.sort(key=lambda m: m["min"])
    for i, m in enumerate(meths):
        m["name"] = f"step{i}"
    props = [dict(name=f"par{i}", next=rnd.choice(states), req=rnd.random() < 0.75, ign=rnd.random() < 0.75)
             for i in range(rnd.randint(0, 5))]
    # in the class body: mostly steps in order, parameters anywhere
    anywhere = rnd.random() < 0.3
    for i, m in enumerate(meths):
        m["at"] = rnd.randrange(1000) if anywhere else 100 * i
    for p in props:
        p["at"] = rnd.randint(-1, 10 * len(meths)) * 10 + 5
    order = rnd.sample(states, k) if rnd.random() < 0.3 else states
    for x in meths + props:
        x["doc"] = rnd.random() < 0.8
    return dict(states=states, order=order, low=min(states), meths=meths, props=props, init=rnd.random() < 0.8)


def walk(rnd, length):
    d = declaration(rnd)
    cur, done = [d["low"], d["low"]], [set(), set()]        # a rough idea of where the objects are
    ops = []
    for _ in range(length):
        i = rnd.choice([1, 1, 2])
        u = rnd.random()
        lack = [p for p in d["props"] if p["req"] and p["name"] not in done[i - 1]]
        if u < 0.04:
            ops.append(dict(op="new", i=i))
            cur[i - 1], done[i - 1] = d["low"], set()
        elif u < 0.07:
            ops.append(dict(op="copy", i=i, j=3 - i))
            cur[i - 1], done[i - 1] = cur[2 - i], set(done[2 - i])
        elif d["props"] and u < 0.45:
            p = rnd.choice(lack) if lack and rnd.random() < 0.7 else rnd.choice(d["props"])
            v = rnd.choice(["val"] * 6 + ["none", "drop", "fail"])
            ops.append(dict(op="set", i=i, p=p["name"], v=v))
            if v == "val":
                done[i - 1].add(p["name"])
            elif v != "fail":
                done[i - 1].discard(p["name"])
        else:
            ok = [m for m in d["meths"] if m["min"] <= cur[i - 1]]
            m = max(ok, key=lambda m: m["min"]) if ok and rnd.random() < 0.6 else rnd.choice(d["meths"])
            ops.append(dict(op="run", i=i, m=m["name"], fails=rnd.random() < 0.1))
            if m in ok and not ops[-1]["fails"]:
                cur[i - 1] = m["next"]
    return dict(kind="track", decl=d, ops=ops)


def track_suites(ctx, n, top, props):
    rnd = rng(ctx, "track")
    ctx.model("MC_StateTrack", f"CONSTANTS Top = {top}\n NumProps = {props}\nINIT FInit\nNEXT FNext\nCHECK_DEADLOCK FALSE\n"
              "INVARIANTS TypeOK Valid\n", name=f"StateTrack: classes of {top + 1} states and {props} parameters", timeout=800)
    ctx.model("MC_StateTrack", "CONSTANTS Top = 2\n NumProps = %d\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n"
              "INVARIANT GuidanceWorks\nPROPERTY Finishes\n" % (2 if ctx.thorough else 1),
              name="StateTrack: following the guidance finishes", timeout=800)
    ctx.suite("objects_of_declared_classes", "statetrack", "J_StateTrack", "VTrack",
              [walk(rnd, rnd.randint(5, 40)) for _ in range(n)])
