"""One worker process: runs every aspect of one property with its share of the examples.

  python -m vf.shard run    <builddir> <property> <seed> <shard> <nshards> <tier> <outdir> <soft budget s>
  python -m vf.shard replay <builddir> <property> <file>          exit 0 holds, 3 violated
"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback


def _import_prop(pid):
    import pkgutil
    import vf.props as P
    for m in pkgutil.iter_modules(P.__path__):
        mod = importlib.import_module("vf.props." + m.name)
        for p in getattr(mod, "PROPS", []):
            if p["id"] == pid:
                return p
    raise SystemExit("unknown property " + pid)


def _call(aspect, case, rec):
    from vf.core import Violation
    rec.begin(aspect.name, case)
    wd = os.getcwd()
    d = tempfile.mkdtemp(prefix="c", dir=os.environ["VF_SCRATCH"])
    os.chdir(d)
    try:
        try:
            aspect.run(case, rec)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError, AssertionError) as e:
            # the judge stumbles over output of another form than documented: a missing attribute, a value of another kind
            t = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("the output has not the expected form: %s: %s (judged at %s:%d)" % (
                type(e).__name__, str(e)[:200], os.path.basename(t.filename), t.lineno)) from e
        rec.end()
    finally:
        os.chdir(wd)
        shutil.rmtree(d, ignore_errors=True)
        from malstroem.algorithms import speedups
        speedups.enable()


def run(builddir, pid, seed, shard, nshards, tier, outdir, budget):
    from vf import env
    env.activate(builddir)
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 120
    from vf.core import Recorder, Violation
    from vf.meta import META
    prop = _import_prop(pid)
    rec = Recorder()
    t_end = time.time() + budget
    current = os.path.join(outdir, "current-%d.json" % shard)
    viol, errors, skipped = [], [], 0
    for ai, aspect in enumerate(prop["aspects"]):
        total = int(aspect.quick * META[pid].get("scale", 3)) if tier == "quick" else aspect.thorough
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            continue
        state = {"skipped": 0, "last": None}

        def body(case):
            if time.time() > t_end and state["last"] is None:
                state["skipped"] += 1
                return
            with open(current + ".tmp", "w") as f:
                json.dump({"aspect": aspect.name, "case": case}, f)
            os.replace(current + ".tmp", current)
            try:
                _call(aspect, case, rec)
            except Violation as e:
                state["last"] = (case, str(e))
                raise

        test = given(aspect.strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                        report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed((seed * 1000003 + shard * 7919 + ai * 104729) & 0x7FFFFFFF)(test)
        try:
            test()
        except Violation as e:
            case, msg = state["last"]
            viol.append({"aspect": aspect.name, "case": case, "message": msg})
        except hypothesis.errors.Flaky as e:
            # the case failed once and passed on the repetition: judge the recorded case on its own
            if state["last"] is not None:
                case, msg = state["last"]
                viol.append({"aspect": aspect.name, "case": case, "message": "(not every repetition) " + msg,
                             "flaky": True})
            else:
                errors.append(traceback.format_exc())
        except BaseException:
            errors.append("aspect %s\n%s" % (aspect.name, traceback.format_exc()))
        skipped += state["skipped"]
    try:
        os.remove(current)
    except OSError:
        pass
    out = {"violations": viol, "errors": errors, "evaluations": rec.evaluations, "hashes": sorted(rec.hashes),
           "tags": rec.tags, "samples": rec.samples, "known": rec.known, "skipped": skipped}
    with open(os.path.join(outdir, "out-%d.json.tmp" % shard), "w") as f:
        json.dump(out, f)
    os.replace(os.path.join(outdir, "out-%d.json.tmp" % shard), os.path.join(outdir, "out-%d.json" % shard))


def replay(builddir, pid, files):
    from vf import env
    env.activate(builddir)
    from vf.core import Recorder, Violation
    prop = _import_prop(pid)
    aspects = {a.name: a for a in prop["aspects"]}
    rec = Recorder()
    rc = 0
    for fn in files:
        with open(fn) as f:
            c = json.load(f)
        if c["aspect"] not in aspects:
            print("unknown aspect in", fn)
            return 2
        try:
            print("REPLAYING %s" % fn, flush=True)
            _call(aspects[c["aspect"]], c["case"], rec)
        except Violation as e:
            print("REPLAY-VIOLATION %s %s" % (fn, str(e).replace("\n", " ")), flush=True)
            rc = 3
    print("REPLAY-KNOWN " + json.dumps(rec.known))
    return rc


if __name__ == "__main__":
    mode = sys.argv[1]
    os.environ.setdefault("VF_SCRATCH", tempfile.gettempdir())
    if mode == "run":
        b, pid, seed, shard, n, tier, outdir, budget = sys.argv[2:10]
        run(b, pid, int(seed), int(shard), int(n), tier, outdir, float(budget))
    else:
        sys.exit(replay(sys.argv[2], sys.argv[3], sys.argv[4:]))
