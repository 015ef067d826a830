"""A process of its own that runs routines of malstroem in one fixed state of the speedups, for comparison.

  python -m vf.worker <directory holding malstroem>      pickled requests on stdin, pickled answers on stdout
"""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile


class Worker:
    """compiled=False: an installation without compiled modules. compiled=True: as imported, never toggled."""

    def __init__(self, compiled):
        import malstroem
        src = os.path.dirname(os.path.abspath(malstroem.__file__))
        if compiled:
            self.dir = os.path.dirname(src)
        else:
            self.dir = tempfile.mkdtemp(prefix="pure", dir=os.environ.get("VF_SCRATCH"))
            shutil.copytree(src, os.path.join(self.dir, "malstroem"),
                            ignore=shutil.ignore_patterns("*.so", "*.pyd", "__pycache__"))
        self.p = subprocess.Popen([sys.executable, "-m", "vf.worker", self.dir], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def __call__(self, *request):
        pickle.dump(request, self.p.stdin, protocol=4)
        self.p.stdin.flush()
        return pickle.load(self.p.stdout)


def main():
    from .env import HYP
    sys.path.insert(0, sys.argv[1])
    sys.path.append(HYP)
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    from .props import parity
    from malstroem.algorithms import speedups
    while True:
        try:
            req = pickle.load(sys.stdin.buffer)
        except EOFError:
            return
        try:
            if req[0] == "state":
                if req[1]:
                    getattr(speedups, req[1])()
                ans = ("ok", (speedups.available, speedups.enabled))
            else:
                ans = ("ok", parity.operate(*req))
        except Exception as e:  # noqa
            ans = ("error", "%s: %s" % (type(e).__name__, str(e)[:300]))
        pickle.dump(ans, out, protocol=4)
        out.flush()


if __name__ == "__main__":
    main()
