"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile
import time

from .env import SPEC, TLA_JARS, WORK, CheckError, base_env, java_dir


class TlcResult:
    def __init__(self, out, rc, wall, extra=()):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "Model checking completed. No error has been found" in out
        if "-simulate" in extra:
            m = re.search(r"The number of states generated: (\d+)", out)
            self.generated = self.distinct = int(m.group(1)) if m else 0
            self.ok = m is not None and rc == 0 and "Error:" not in out
        self.violated = re.findall(r"Invariant (\S+) is violated|property (\S+) (?:was|is) violated", out)

    def lines(self, tag):
        """Values printed by PrintT(<<tag, "json">>) or PrintT(<<tag, a, b>>)."""
        res = []
        pre = '<<"%s", ' % tag
        for ln in self.out.splitlines():
            if ln.startswith(pre) and ln.endswith(">>"):
                res.append(ln[len(pre):-2])
        return res


def run(module, cfg_text, env=None, workers=8, timeout=600, extra=(), heap="6g", files=()):
    """Run TLC on spec/<module>.tla with a configuration given as text."""
    jd = java_dir()
    os.makedirs(WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(tmp, f))
        with open(os.path.join(tmp, "run.cfg"), "w") as fo:
            fo.write(cfg_text)
        e = base_env()
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:SafeOverrides", "-cp", jd + ":" + TLA_JARS,
               "-Djava.io.tmpdir=" + tmp,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(tmp, "states"),
               "-noGenerateSpecTE", "-config", "run.cfg", *extra, module + ".tla"]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = p.stdout.decode("utf-8", "replace")
        return TlcResult(out, p.returncode, time.time() - t0, extra)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def unquote(s):
    """The TLA+ string literal s (as printed by TLC) -> str."""
    assert s[0] == '"' and s[-1] == '"', s[:80]
    return s[1:-1].replace('\\"', '"').replace("\\\\", "\\")
