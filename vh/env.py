"""Builds: the Cython extensions of /repo's current working tree and the Java
overrides of the specification, both into /verif/.work (ignored by git)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


def base_env():
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    env.update(PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               SETUPTOOLS_SCM_PRETEND_VERSION="2.0.0", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return env


def _digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fo:
            h.update(hashlib.sha256(fo.read()).digest())
    return h.hexdigest()[:16]


class _Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ext_dir():
    """Directory holding the extensions built from /repo's current sources."""
    src = os.path.join(REPO, "src", "flowstab")
    files = [os.path.join(REPO, "setup.py")]
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        for n in sorted(names):
            if n.endswith((".pyx", ".pxd", ".pxi", ".h", ".hpp", ".c", ".cpp")) \
                    and not (n.startswith("_cython_") and n.endswith((".c", ".cpp"))):
                files.append(os.path.join(root, n))
    files.sort()
    out = os.path.join(WORK, "ext-" + _digest(files))
    with _Lock("ext"):
        if os.path.exists(os.path.join(out, "ok")):
            return out
        shutil.rmtree(out, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="extbuild-", dir=WORK)
        try:
            for f in files:
                dst = os.path.join(tmp, os.path.relpath(f, REPO))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(f, dst)
            env = base_env()
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "-j2"],
                               cwd=tmp, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            sos = glob.glob(os.path.join(tmp, "src", "*.so")) + \
                glob.glob(os.path.join(tmp, "*.so"))
            if r.returncode != 0 or len(sos) < 2:
                raise CheckError("the extensions of /repo do not build:\n" + r.stdout[-3000:])
            os.makedirs(out)
            for s in sos:
                shutil.copy(s, out)
            open(os.path.join(out, "ok"), "w").close()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for old in glob.glob(os.path.join(WORK, "ext-*")):
            if old != out:
                shutil.rmtree(old, ignore_errors=True)
    return out


def java_dir():
    files = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    out = os.path.join(WORK, "java-" + _digest(files))
    with _Lock("java"):
        if not os.path.exists(os.path.join(out, "ok")):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            r = subprocess.run(["javac", "-cp", TLA_JARS, "-d", out] + files,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("javac: " + r.stdout[-2000:])
            open(os.path.join(out, "ok"), "w").close()
    return out


def driver_env():
    env = base_env()
    env["PYTHONPATH"] = ":".join([ext_dir(), os.path.join(REPO, "src"), VERIF])
    env["PYTHONWARNINGS"] = "ignore"
    return env
