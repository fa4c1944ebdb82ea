#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, the properties, the harnesses'
bounds and the catch table."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and sys.executable != VENV:
    os.execv(VENV, [VENV] + sys.argv)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from props import P  # noqa: E402
import kf  # noqa: E402
from design_oracles import O, COST  # noqa: E402

out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
out.append("\n## 4. Properties\n")
for k in sorted(P):
    p = P[k]
    m = importlib.import_module("harness." + k.lower())
    out.append("### %s %s\n" % (k, p["title"]))
    out.append("* Specified: %s" % p["statement"])
    out.append("* Oracle: %s" % O[k])
    out.append("* Decided for every value within: %s." % m.BOUNDS)
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out.append("* Assumed: %s." % "; ".join(a))
    out.append("* Beyond the tests: %s" % p["why"])
    out.append("* Quick check: about %s s on 8 cores.\n" % COST.get(k, 10))
out.append("## 5. Findings\n")
out.append("Repaired in /repo (each one `fix:` commit; the check which found "
           "it reports it again if it returns):\n")
for p, c, w in kf.FIXED:
    out.append("* %s `%s` %s" % (p, c, w))
out.append("\nOpen (listed in known_findings.json, printed as KNOWN-FINDING):"
           "\n")
for e in kf.OPEN:
    out.append("* %s `%s`: %s" % (e["property"], e["id"], e["what"]))
out.append(open(os.path.join(ROOT, "tools", "design_open.md")).read())
out.append("\n## 6. Planted bugs and which check catches them\n")
out.append("Every bug below compiles, passes the 32 stable tests, and has a "
           "demonstration that fails with it and passes without it "
           "(`seeded/<id>`).\n")
c = json.load(open(os.path.join(ROOT, "tools", "catches.json")))
out.append("| planted bug | property | needs | caught by |")
out.append("|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (
        d, m["property"], m["needs"], c.get(d, "not yet run")))
out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read())
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out).rstrip() + "\n")
