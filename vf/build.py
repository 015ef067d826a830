"""Builds a private copy of malstroem from /repo's working tree.

The Python files are copied, the Cython extensions are compiled from the .pyx files (never from generated .c files or
.so files lying around in /repo). Copies are cached by the hash of everything that went into them, below /verif/.build
(git-ignored), so that consecutive checks on the same tree share one build. Nothing is written to /repo.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
KEEP = (".py", ".pyx", ".pxd", ".pxi", ".h")


class BuildError(Exception):
    pass


def _sources():
    base = os.path.join(REPO, "malstroem")
    found = []
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(KEEP):
                p = os.path.join(d, f)
                found.append(os.path.relpath(p, REPO))
    return found


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(os.path.join(REPO, p), "rb") as f:
            h.update(p.encode() + b"\0" + hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _cache_root():
    for d in (os.path.join(ROOT, ".build"), os.path.join(tempfile.gettempdir(), "verif-build")):
        try:
            os.makedirs(d, exist_ok=True)
            probe = os.path.join(d, ".w%d" % os.getpid())
            open(probe, "w").close()
            os.remove(probe)
            return d
        except OSError:
            continue
    raise BuildError("no place to build")


_COMPILE = r"""
import os, sys, subprocess, sysconfig
import numpy
from Cython.Compiler.Main import compile as cy, CompilationOptions, default_options
src, = sys.argv[1:2]
flags = sys.argv[2:]
from Cython.Build import cythonize
from setuptools import Extension
name = os.path.splitext(src)[0].replace('/', '.')
ext = cythonize([Extension(name, [src], include_dirs=[numpy.get_include()])], quiet=True, force=True)[0]
c = ext.sources[0]
out = os.path.splitext(src)[0] + sysconfig.get_config_var('EXT_SUFFIX')
cmd = ['/usr/bin/gcc', '-shared', '-fPIC', '-fno-strict-overflow', '-fwrapv', '-w',
       '-I' + numpy.get_include(), '-I' + sysconfig.get_paths()['include']] + flags + [c, '-o', out]
subprocess.check_call(cmd)
os.remove(c)
"""


def build(asan=False, verbose=True):
    """Returns the directory to put on sys.path."""
    srcs = _sources()
    native = [p for p in srcs if p.endswith((".pyx", ".pxd", ".pxi", ".h"))]
    pyx = [p for p in srcs if p.endswith(".pyx")]
    if not pyx:
        raise BuildError("no Cython sources found in %s" % REPO)
    flags = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if asan else ["-O1"]
    root = _cache_root()
    key = _digest(srcs, "v3 " + " ".join(flags))
    dest = os.path.join(root, key)
    lock = open(os.path.join(root, ".lock-" + key), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(dest, ".ok")):
            return dest
        t0 = time.time()
        shutil.rmtree(dest, ignore_errors=True)
        for p in srcs:
            q = os.path.join(dest, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, p), q)
        # extensions: own cache, keyed by the native sources only
        # the extension modules may cimport numpy only; .py files are not inputs to their compilation
        sokey = "so-" + _digest(native, "v3 " + " ".join(flags))
        sodir = os.path.join(root, sokey)
        solock = open(os.path.join(root, ".lock-" + sokey), "w")
        fcntl.flock(solock, fcntl.LOCK_EX)
        try:
            if not os.path.exists(os.path.join(sodir, ".ok")):
                shutil.rmtree(sodir, ignore_errors=True)
                for p in srcs:
                    q = os.path.join(sodir, p)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    shutil.copyfile(os.path.join(REPO, p), q)
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
                env.pop("LD_PRELOAD", None)
                procs = [(p, subprocess.Popen([PY, "-c", _COMPILE, p] + flags, cwd=sodir, env=env,
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for p in pyx]
                for p, pr in procs:
                    out = pr.communicate(timeout=600)[0]
                    if pr.returncode:
                        raise BuildError("cannot build %s:\n%s" % (p, out.decode(errors="replace")[-3000:]))
                open(os.path.join(sodir, ".ok"), "w").close()
            for d, _, files in os.walk(sodir):
                for f in files:
                    if f.endswith(".so"):
                        rel = os.path.relpath(os.path.join(d, f), sodir)
                        os.makedirs(os.path.dirname(os.path.join(dest, rel)), exist_ok=True)
                        shutil.copyfile(os.path.join(sodir, rel), os.path.join(dest, rel))
        finally:
            fcntl.flock(solock, fcntl.LOCK_UN)
        open(os.path.join(dest, ".ok"), "w").close()
        if verbose:
            print("built %s in %.1fs%s" % (key, time.time() - t0, " (asan)" if asan else ""), file=sys.stderr)
        _prune(root, keep={key, sokey})
        return dest
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _prune(root, keep, maxn=12):
    """Old builds are dropped, newest kept."""
    try:
        ds = [os.path.join(root, d) for d in os.listdir(root) if not d.startswith(".") and d not in keep]
        ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
        for d in ds[maxn:]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    print(build(asan="--asan" in sys.argv))
