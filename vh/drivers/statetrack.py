"""Classes with registered steps and parameters (see spec/J_StateTrack.tla)."""
import copy
import types
import warnings

from flowstab.state_tracking import OrderedEnum, StateMeta

register = StateMeta.register


class Refused(Exception):
    pass


def make_class(d):
    names = {v: f"S{k}" for k, v in enumerate(d["states"])}
    States = OrderedEnum("States", [(names[v], v) for v in d["order"]])

    def st(v):
        return States[names[v]]

    def prop(p):
        name = p["name"]

        def getter(self):
            return self.__dict__.get("_v_" + name)

        def setter(self, value):
            if value == "fail":
                raise Refused(name)
            self.__dict__["_v_" + name] = None if value == "drop" else value
        getter.__name__ = setter.__name__ = name
        if p.get("doc", True):
            getter.__doc__ = f"""The value of {name}

            and more about it.
            """
            setter.__doc__ = f"Sets {name}"
        kw = dict(next_state=st(p["next"]), ignore_none=p["ign"], required=p["req"])
        if p["ign"] and p["req"]:
            kw = dict(next_state=st(p["next"]))
        return register(**kw)(property(getter, setter))

    def meth(m):
        name = m["name"]

        def step(self, x, fails=False, y=0):
            if fails:
                raise Refused(name)
            self.ran.append((name, x))
            return (name, x, y, id(self))
        step.__name__ = name
        if m.get("doc", True):
            step.__doc__ = f"""Runs {name}
                with x
            """
        return register(next_state=st(m["next"]), minimal_state=st(m["min"]))(step)

    def body(ns):
        def __init__(self, tag=None):
            self.ran = []
            self.tag = tag
        if d.get("init", True):
            ns["__init__"] = __init__
        else:
            ns["ran"] = property(lambda self: self.__dict__.setdefault("_ran", []))
        both = [("p", p) for p in d["props"]] + [("m", m) for m in d["meths"]]
        for kind, x in sorted(both, key=lambda t: t[1]["at"]):
            ns[x["name"]] = prop(x) if kind == "p" else meth(x)
    return types.new_class("Analysis", (), dict(metaclass=StateMeta, states=States), body)


def observe_track(sc):
    d = sc["decl"]
    cls = make_class(d)

    def create(k):
        return cls(tag=k) if d.get("init", True) else cls()
    objs = [create(1), create(2)]
    vals = [{}, {}]
    steps = []
    for n, o in enumerate(sc["ops"]):
        i = o["i"] - 1
        outcome, passed = "done", True
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            try:
                if o["op"] == "new":
                    objs[i], vals[i] = create(i + 1), {}
                elif o["op"] == "copy":
                    objs[i], vals[i] = copy.deepcopy(objs[o["j"] - 1]), dict(vals[o["j"] - 1])
                elif o["op"] == "set":
                    v = {"val": n + 0.5, "none": None, "drop": "drop", "fail": "fail"}[o["v"]]
                    if n % 7 == 0 and v == n + 0.5:
                        v = 0 if n % 2 else False
                    setattr(objs[i], o["p"], v)
                    vals[i][o["p"]] = None if v == "drop" else v
                else:
                    before = len(objs[i].ran)
                    ret = getattr(objs[i], o["m"])(n, y=7, fails=o["fails"])
                    ran = len(objs[i].ran) > before
                    if ret is None and not ran:
                        outcome = "refused" if wl else "refused silently"
                    passed = ran and ret == (o["m"], n, 7, id(objs[i])) and objs[i].ran[-1] == (o["m"], n)
            except Refused:
                outcome = "raised"
        out = []
        for x in objs:
            missing, nxt = x.state.next
            assert list(x.state.missing_parameters) == list(missing)
            out.append(dict(cur=int(x.state.current.value), missing=[str(m) for m in missing], next=str(nxt) if nxt else ""))
        kept = all(getattr(x, p["name"]) == v.get(p["name"]) for x, v in zip(objs, vals) for p in d["props"])
        steps.append(dict(outcome=outcome, passed=bool(passed), objs=out, kept=bool(kept)))
    return dict(steps=steps, about=[about(d, x.state) for x in objs])


def about(d, state):
    """What an object tells about its class."""
    out = {}
    for what in ("info", "howto"):
        texts = getattr(state, what, {})
        out[what] = [[str(k), " ".join(texts[k].split())] for k in texts]
    needed = getattr(state, "methods_required", {})
    out["methods"] = [[int(k.value), sorted(str(x) for x in v)] for k, v in needed.items()]
    return out
