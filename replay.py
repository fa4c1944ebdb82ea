#!/usr/bin/env python3
"""replay.py FILE: run a reported counterexample against the real code.

Exit 1 when the property is violated by the recorded input, 0 otherwise."""
import json
import os
import sys

VENV = "/opt/venv/bin/python"
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ROOT = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("QOPT_REPO", "/repo"))
sys.path.insert(0, ROOT)
sys.path.append(SITE)
os.environ.setdefault("MPLBACKEND", "Agg")
import importlib  # noqa: E402
from symx import runner  # noqa: E402

with open(sys.argv[1]) as f:
    r = json.load(f)
mod = importlib.import_module("harness." + r["property"].lower())
for m in runner.REAL_MODULES:
    importlib.import_module("qopt." + m)
st, fails, env = runner.run_concrete(
    getattr(mod, r["config"]["h"]), r["config"], r["violation"]["values"])
print("%s %s: %s" % (r["property"], json.dumps(r["config"]), st))
for label, detail in fails:
    print("  %s: %s" % (label, detail))
sys.exit(1 if st == "fail" else 0)
