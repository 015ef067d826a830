"""Writes properties.jsonl and MANIFEST.json from vf/meta.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.meta import META  # noqa

PY = "/opt/venv/bin/python"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid, m in META.items():
        f.write(json.dumps({
            "id": pid, "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["text"]}, "why_tests_cant": m["why"],
            "anchors": {"files": m["files"], "mechanism": [{"name": n, "where": w} for n, w in m["mech"]],
                        "hook_needed": None}}, ensure_ascii=False) + "\n")
checks = [{"property": pid, "quick_cmd": "%s check.py %s" % (PY, pid),
           "thorough_cmd": "%s check.py %s --tier thorough" % (PY, pid), "evidence_file": "evidence/%s.json" % pid,
           "technique": m["technique"], "level": "exploration", "level_note": m["note"]} for pid, m in META.items()]
man = {"version": 1, "setup_cmd": "%s vf/build.py && %s vf/build.py --asan" % (PY, PY), "checks": checks, "not_applicable": [],
       "notes": "Python files and Cython sources are copied from /repo's working tree and built by each check (cached by content "
                "in .build). No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(ROOT, "vf", "design_head.md")).read())
    for pid, m in META.items():
        f.write("* **%s %s.** %s. Cases: %s. Over: %s. Anchored in %s.%s\n" % (
            pid, m["title"], m["technique"][0].upper() + m["technique"][1:], m["rule"], m["text"], ", ".join(m["files"]),
            " Assumes: " + "; ".join(m["assumptions"]) + "." if m["assumptions"] else ""))
    f.write(open(os.path.join(ROOT, "vf", "design_tail.md")).read())
    # the table is read for the documentation only; no check looks at seeded/
    f.write("| property | planted bug | what it needs |\n|---|---|---|\n")
    seeded = os.path.join(ROOT, "seeded")
    rows = []
    for n in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
        m = json.load(open(os.path.join(seeded, n, "meta.json")))
        rows.append((m["property"], n, m["needs"]))
    for r in sorted(rows):
        f.write("| %s | %s | %s |\n" % r)
