"""Entry point: python -m vh.main <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import runner
from .env import VERIF, WORK, CheckError


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.model_runs = []
        self.samples = []
        self.suites = {}
        self.violations = []
        self.known = []
        self.exhaustive = {}
        self.assumptions = []

    # -- the specification alone ------------------------------------------
    def model(self, module, cfg, name=None, **kw):
        """Check the specification itself.  A failure here is an error of the
        check, not of the code."""
        from . import tlc
        res = tlc.run(module, cfg, **kw)
        if not res.ok:
            raise CheckError(f"specification {module} does not check:\n" + runner._tail(res.out))
        self.states += res.distinct
        self.transitions += res.generated
        self.model_runs.append({"module": module, "name": name or module, "distinct": res.distinct,
                                "generated": res.generated, "wall_s": round(res.wall, 1)})
        return res

    # -- binding ----------------------------------------------------------
    def suite(self, name, driver, module, verdict_op, scenarios, step_timeout=90, nproc=8,
              constants="", judge_timeout=800):
        if self.replay is not None:
            scenarios = [s["scenario"] for s in self.replay if s["suite"] == name]
            if not scenarios:
                return
        if not scenarios:
            return
        t0 = time.time()
        obs = runner.observe(driver, scenarios, nproc=nproc, step_timeout=step_timeout)
        t1 = time.time()
        verdicts, res = runner.judge(module, verdict_op, scenarios, obs, constants=constants,
                                     timeout=judge_timeout)
        if res is not None:
            self.states += res.distinct
            self.transitions += res.generated
        self.validated += len(scenarios)
        bad = [i for i, v in enumerate(verdicts) if v != "ok"]
        self.suites[name] = {"records": len(scenarios), "rejected": len(bad),
                             "observe_s": round(t1 - t0, 1), "judge_s": round(time.time() - t1, 1)}
        if len(self.samples) < 6:
            self.samples.append({"suite": name, "scenario": _short(scenarios[0]),
                                 "observation": _short(obs[0]), "verdict": verdicts[0]})
        for i in bad:
            self.report(name, verdicts[i], scenarios[i], obs[i])

    def report(self, suite, clause, scenario, obs):
        key = scenario.get("finding")
        for f in KNOWN:
            if f.get("property") == self.prop and key is not None and f.get("finding") == key \
                    and clause in f.get("clauses", [clause]):
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append({"suite": suite, "clause": clause, "scenario": scenario,
                                "observation": obs})


def _short(x, n=700):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


KNOWN = []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--suites", help="development: only suites whose name contains this")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        KNOWN.extend(x for x in json.load(f)["findings"] if x.get("status") == "known")
    ctx = Ctx(a.prop, a.tier, seed)
    ctx.replay = None
    if a.replay:
        with open(a.replay) as f:
            ctx.replay = json.load(f)
    if a.suites:
        orig = ctx.suite
        ctx.suite = lambda name, *p, **k: orig(name, *p, **k) if a.suites in name else None
    try:
        mod = importlib.import_module("vh.checks." + a.prop.lower())
        mod.check(ctx)
    except CheckError as e:
        print("CHECK-ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR in the harness")
        return 2
    for k in ctx.known:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    replay = None
    if ctx.violations and a.replay is None:
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        replay = os.path.join(WORK, "replay", f"{a.prop}.json")
        with open(replay, "w") as f:
            json.dump(ctx.violations[:20], f)
    if a.replay is None and not a.suites:
        ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
              "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                           "traces_validated_against_impl": ctx.validated,
                           "samples": ctx.samples, "suites": ctx.suites,
                           "model_runs": ctx.model_runs},
              "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assumptions,
              "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
        ev["coverage"].update(ctx.exhaustive)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for name, s in ctx.suites.items():
        print(f"suite {name}: {s['records']} records, {s['rejected']} rejected "
              f"(observe {s['observe_s']}s, judge {s['judge_s']}s)")
    for m in ctx.model_runs:
        print(f"model {m['name']}: {m['distinct']} distinct states, {m['generated']} generated, {m['wall_s']}s")
    print(f"{a.prop} {a.tier}: {time.time() - ctx.t0:.1f}s, {len(ctx.violations)} violations")
    if ctx.violations:
        seen = {}
        for v in ctx.violations:
            seen.setdefault((v["suite"], v["clause"]), v)
        for (s, c), v in list(seen.items())[:10]:
            d = v["observation"].get("detail", "")
            print(f"  rejected: suite={s} clause={c} scenario={_short(v['scenario'], 400)}"
                  + (f" raised={v['observation']['raised']} {d[:300]}" if v["observation"].get("raised") else ""))
        print(f"VIOLATION property={a.prop} replay={replay or a.replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
