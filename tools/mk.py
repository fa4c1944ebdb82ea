#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the source of qopt with z3 deciding each "
        "assertion; counterexamples replayed on the real code")
TRUST = (" Decided over exact reals within the stated bounds; trusts z3, the "
         "numpy/scipy models (compared with the real libraries on every run) "
         "and the assumptions listed in the evidence.")

lines, checks, na = [], [], []
for pid, p in sorted(props.P.items()):
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    assert p["statement"].count(". ") <= 2, pid
    lines.append(json.dumps({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["q"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": a, "where": b}
                                  for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": False}}))
    if p.get("na"):
        na.append({"property": pid, "reason": p["na"]})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": p.get("technique", TECH),
        "level": "model_checking",
        "level_note": p["note"] + "." + TRUST})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "python3 check.py --selftest",
               "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
