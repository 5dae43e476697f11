"""Replays scenarios into the real code (in child processes) and lets TLC judge
what was observed."""
import json
import os
import shutil
import signal
import subprocess
import tempfile
import time

from . import tlc
from .env import PY, VERIF, WORK, CheckError, driver_env


# optional parts that an installation can be without (scenario field "hide")
PARTS = {"": "", "extensions": "cython,_cython_fast_funcs,_cython_sparse_stoch", "mkl": "sparse_dot_mkl"}


def observe(driver, scenarios, nproc=8, step_timeout=90):
    """Observations of the real code, one per scenario.  A crash or a hang of the
    code under test is an observation, too."""
    obs = [None] * len(scenarios)
    for part in sorted({s.get("hide", "") for s in scenarios}):
        idx = [i for i, s in enumerate(scenarios) if s.get("hide", "") == part]
        for i, o in zip(idx, _observe(driver, [scenarios[i] for i in idx], nproc, step_timeout, part)):
            obs[i] = o
    return obs


def variants(scenarios, every, parts=("extensions", "mkl")):
    """The scenarios, and some of them again for installations without a part."""
    return scenarios + [dict(s, hide=part) for k, part in enumerate(parts) for s in scenarios[k::every]]


def _observe(driver, scenarios, nproc, step_timeout, part):
    n = len(scenarios)
    obs = [None] * n
    env = driver_env()
    env["VH_HIDE"] = PARTS[part]
    os.makedirs(WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="obs-", dir=WORK)
    env["TMPDIR"] = tmp
    env["VH_SCRATCH"] = tmp
    try:
        nproc = max(1, min(nproc, n))
        queues = [list(range(k, n, nproc)) for k in range(nproc)]
        procs = []

        def start(q, idxs):
            inp = os.path.join(tmp, f"in{q}")
            outp = os.path.join(tmp, f"out{q}")
            with open(inp, "w") as f:
                for i in idxs:
                    f.write(json.dumps(scenarios[i]) + "\n")
            open(outp, "w").close()
            err = open(os.path.join(tmp, f"err{q}"), "wb")
            p = subprocess.Popen([PY, "-m", "vh.worker", driver, inp, outp], cwd=tmp, env=env,
                                 stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
            err.close()
            return [p, outp, idxs, 0, time.time()]

        for q, idxs in enumerate(queues):
            procs.append(start(q, idxs) if idxs else None)
        pending = True
        while pending:
            pending = False
            for q, st in enumerate(procs):
                if st is None:
                    continue
                p, outp, idxs, done, last = st
                rc = p.poll()
                with open(outp) as f:
                    lines = f.read().split("\n")[:-1]
                if len(lines) > done:
                    st[3], st[4] = len(lines), time.time()
                hung = rc is None and time.time() - st[4] > step_timeout + (60 if st[3] == 0 else 0)
                if rc is None and not hung:
                    pending = True
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                with open(outp) as f:
                    lines = f.read().split("\n")[:-1]
                for i, ln in zip(idxs, lines):
                    obs[i] = json.loads(ln)
                rest = idxs[len(lines):]
                if not rest:
                    procs[q] = None
                    continue
                with open(os.path.join(tmp, f"err{q}"), "rb") as f:
                    err = f.read().decode("utf-8", "replace")[-1500:]
                if not lines and not hung and "Error" in err and rc == 1:
                    # the package cannot even be imported
                    obs[rest[0]] = {"raised": "ImportFailure", "detail": err}
                else:
                    obs[rest[0]] = {"raised": "Hang" if hung else f"Crash{rc}", "detail": err}
                rest = rest[1:]
                if rest:
                    if sum(1 for o in obs if o and o["raised"] in ("Hang", "ImportFailure")
                           or o and o["raised"].startswith("Crash")) > 12:
                        for i in rest:
                            obs[i] = {"raised": "NotRun", "detail": "too many crashes before"}
                        procs[q] = None
                    else:
                        procs[q] = start(q, rest)
                        pending = True
                else:
                    procs[q] = None
            if pending:
                time.sleep(0.03)
        return obs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(module, verdict_op, scenarios, obs, constants="", timeout=800, workers=8):
    """TLC judges every record (scenario joined with observation).
    Returns the list of clause names ("ok" or the clause that fails)."""
    os.makedirs(WORK, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson", dir=WORK)
    try:
        verdicts = [None] * len(obs)
        idx = []
        with os.fdopen(fd, "w") as f:
            for i, (s, o) in enumerate(zip(scenarios, obs)):
                if o["raised"] in ("Hang", "ImportFailure", "NotRun") or o["raised"].startswith("Crash"):
                    verdicts[i] = "terminates_normally"
                    continue
                rec = dict(s)
                rec.update(o)
                rec.pop("detail", None)
                idx.append(i)
                f.write(json.dumps(rec) + "\n")
        if not idx:
            return verdicts, None
        res = tlc.run(module, f"INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n"
                      f"CONSTANT Verdict <- {verdict_op}\n{constants}",
                      env={"TRACE": path}, timeout=timeout, workers=workers)
        if not res.ok:
            raise CheckError(f"TLC could not judge ({module}):\n" + _tail(res.out))
        for ln in res.lines("V"):
            k, v = ln.split(", ", 1)
            verdicts[idx[int(k) - 1]] = tlc.unquote(v)
        if any(v is None for v in verdicts):
            raise CheckError(f"TLC left records without a verdict ({module})\n" + _tail(res.out))
        return verdicts, res
    finally:
        os.unlink(path)


def _tail(out):
    keep = [ln for ln in out.splitlines() if not ln.startswith(("Loading ", "Parsing ", "Semantic ", '<<"V"', '<<"E"', "Linting"))]
    return "\n".join(keep)[:4000]
