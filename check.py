#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [--tier quick|thorough] [--replay FILE ...] [--examples-factor F]

Exit 0: held on everything explored. Exit 1 + 'VIOLATION property=<id> replay=<path>': broken. Else: error of the check.
"""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vf import build as B  # noqa
from vf.env import child_env  # noqa
from vf.meta import META  # noqa

NSHARDS = 8
STALL = 120.0  # one case takes milliseconds to a few seconds


def known_findings(pid):
    """{key: text} of the findings listed for this property."""
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].strip().split(" ", 2)
                if parts[0] == "property=" + pid and parts[1].startswith("key="):
                    out[parts[1][4:]] = parts[2]
    return out


def run_replay(builddir, pid, files, env, timeout=600):
    """-> (rc, output); rc < 0 signal, 'timeout' when it does not end."""
    p = subprocess.Popen([B.PY, "-m", "vf.shard", "replay", builddir, pid] + files, cwd=ROOT, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0].decode(errors="replace")
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "timeout", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", nargs="+")
    ap.add_argument("--no-regress", action="store_true")
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    meta = META[pid]
    asan = bool(meta.get("asan"))
    try:
        builddir = B.build(asan=asan)
    except Exception as e:
        print("BUILD-ERROR", e)
        return 2
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    env = child_env()
    env["VF_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    if asan:
        lib = subprocess.check_output(["/usr/bin/gcc", "-print-file-name=libasan.so"]).decode().strip()
        env["LD_PRELOAD"] = os.path.realpath(lib)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1"
        env["PYTHONMALLOC"] = "malloc"
    replays = os.path.join(ROOT, "replays")
    os.makedirs(replays, exist_ok=True)
    procs = []
    try:
        if a.replay:
            rc, out = run_replay(builddir, pid, [os.path.abspath(f) for f in a.replay], env)
            print(out, end="")
            if rc == 0:
                return 0
            if rc == 3 or rc == "timeout" or (isinstance(rc, int) and rc < 0):
                print("VIOLATION property=%s replay=%s" % (pid, a.replay[0]))
                return 1
            return 2

        listed = known_findings(pid)
        violations, errors, known = [], [], {}
        nreg = 0

        # 1. committed regression corpus
        reg = sorted(glob.glob(os.path.join(ROOT, "regress", pid, "*.json")))
        if reg and not a.no_regress:
            rc, out = run_replay(builddir, pid, reg, env)
            done = [l.split(" ", 1)[1] for l in out.splitlines() if l.startswith("REPLAYING ")]
            nreg = len(done)
            for l in out.splitlines():
                if l.startswith("REPLAY-VIOLATION "):
                    _, fn, msg = l.split(" ", 2)
                    violations.append((fn, msg))
                if l.startswith("REPLAY-KNOWN "):
                    for k, v in json.loads(l[len("REPLAY-KNOWN "):]).items():
                        known[k] = known.get(k, 0) + v
            if rc == "timeout" or (isinstance(rc, int) and rc < 0):
                fn = done[-1] if done else reg[0]
                violations.append((fn, "crashes or does not end (%s)" % rc))
            elif rc not in (0, 3):
                errors.append("regression replay: rc %s\n%s" % (rc, out[-3000:]))

        # 2. generated cases
        budget = float(meta.get("budget_quick", 150) if tier == "quick" else meta.get("budget_thorough", 660))
        outdir = os.path.join(scratch, "out")
        os.makedirs(outdir)
        for s in range(NSHARDS):
            log = open(os.path.join(outdir, "log-%d" % s), "wb")
            procs.append(subprocess.Popen(
                [B.PY, "-m", "vf.shard", "run", builddir, pid, str(seed), str(s), str(NSHARDS), tier, outdir,
                 str(budget)], cwd=ROOT, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True))
        started = time.time()
        hard = budget + 200
        suspects = []  # (shard, case file, why)
        alive = set(range(NSHARDS))
        while alive:
            time.sleep(0.1)
            now = time.time()
            for s in sorted(alive):
                p = procs[s]
                cur = os.path.join(outdir, "current-%d.json" % s)
                if p.poll() is not None:
                    alive.discard(s)
                    if p.returncode != 0:
                        if os.path.exists(cur) and p.returncode < 0:
                            suspects.append((s, cur, "process ended by signal %d" % -p.returncode))
                        else:
                            log = open(os.path.join(outdir, "log-%d" % s), errors="replace").read()
                            errors.append("shard %d: rc %s\n%s" % (s, p.returncode, log[-3000:]))
                    continue
                try:
                    age = now - os.path.getmtime(cur)
                except OSError:
                    age = 0
                if age > STALL:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    alive.discard(s)
                    suspects.append((s, cur, "one case does not end"))
                elif now - started > hard:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    alive.discard(s)
                    print("shard %d stopped at the time limit (inconclusive)" % s, file=sys.stderr)
            # a violation was found and the others have had time to finish their own
        ev, skipped = 0, 0
        hashes, tags, samples = set(), {}, []
        for s in range(NSHARDS):
            fn = os.path.join(outdir, "out-%d.json" % s)
            if not os.path.exists(fn):
                continue
            o = json.load(open(fn))
            ev += o["evaluations"]
            skipped += o["skipped"]
            hashes.update(o["hashes"])
            for k, v in o["tags"].items():
                tags[k] = tags.get(k, 0) + v
            for k, v in o["known"].items():
                known[k] = known.get(k, 0) + v
            samples.extend(o["samples"])
            errors.extend("shard %d: %s" % (s, e) for e in o["errors"])
            for v in o["violations"]:
                fn = os.path.join(replays, "%s-%s-seed%d-shard%d.json" % (pid, v["aspect"], seed, s))
                json.dump({"property": pid, "aspect": v["aspect"], "case": v["case"], "message": v["message"]},
                          open(fn, "w"), indent=1)
                if v.get("flaky"):
                    rc, out = run_replay(builddir, pid, [fn], env)
                    if rc != 3:
                        errors.append("case fails only sometimes: %s\n%s" % (v["message"], out[-500:]))
                        continue
                violations.append((fn, v["message"]))
        # crashes and stalls count only when a fresh process repeats them
        for s, cur, why in suspects[:3]:
            c = json.load(open(cur))
            fn = os.path.join(replays, "%s-%s-seed%d-shard%d.json" % (pid, c["aspect"], seed, s))
            json.dump({"property": pid, "aspect": c["aspect"], "case": c["case"], "message": why}, open(fn, "w"),
                      indent=1)
            rc, out = run_replay(builddir, pid, [fn], env, timeout=STALL)
            if rc == 3:
                violations.append((fn, out.strip().splitlines()[-1][:300]))
            elif rc == "timeout" or (isinstance(rc, int) and rc < 0):
                tail = [l for l in out.splitlines() if "ERROR: AddressSanitizer" in l]
                violations.append((fn, why + (" " + tail[0] if tail else "")))
            else:
                errors.append("shard %d: %s, not repeated in a fresh process (rc %s)" % (s, why, rc))

        unlisted = sorted(k for k in known if k not in listed)
        for k in unlisted:
            errors.append("known-finding key %s is not listed in known-findings.txt" % k)

        picked, per = [], {}
        for asp, case in samples:
            if per.get(asp, 0) < 2:
                per[asp] = per.get(asp, 0) + 1
                picked.append({"aspect": asp, "case": case})
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": ev + nreg, "distinct_nontrivial": len(hashes), "rule": meta["rule"],
                         "samples": picked[:8], "tags": dict(sorted(tags.items())),
                         "regression_cases_replayed": nreg, "cases_skipped_out_of_time": skipped,
                         "known_findings_met": known, "shards": NSHARDS},
            "assumptions": meta.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

        if violations:
            # smallest reproduction first
            violations.sort(key=lambda v: os.path.getsize(v[0]) if os.path.exists(v[0]) else 0)
            for fn, msg in violations[:4]:
                print("  %s" % msg[:400])
            print("VIOLATION property=%s replay=%s" % (pid, violations[0][0]))
            return 1
        if errors:
            for e in errors[:4]:
                print("CHECK-ERROR", e)
            return 2
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
        print("%s: held; %d cases, %d distinct non-trivial, %.0fs" % (pid, ev + nreg, len(hashes), time.time() - t0))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
