#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only TEXT] [-v] [-j N]"""
import argparse
import os
import sys

VENV = "/opt/venv/bin/python"
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ROOT = os.path.dirname(os.path.abspath(__file__))

if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("QOPT_REPO", "/repo"))
sys.path.insert(0, ROOT)
sys.path.append(SITE)          # z3 only; numpy etc. come from /opt/venv
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.setrecursionlimit(20000)

p = argparse.ArgumentParser()
p.add_argument("property", nargs="?")
p.add_argument("--selftest", action="store_true",
               help="compare the models of numpy and scipy with the "
               "libraries")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
p.add_argument("--only")
p.add_argument("-v", action="store_true")
p.add_argument("-j", type=int)
a = p.parse_args()

from symx import runner  # noqa: E402

if a.selftest:
    import z3
    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    print("solver", z3.get_version_string())
    import warnings
    warnings.showwarning = lambda *x, **k: None
    from symx import selftest
    good, skipped, bad = selftest.run()
    for e, why in skipped:
        print("not modelled: %s (%s)" % (e, why[:80]))
    for e, why in bad:
        print("DIFFERS: %s: %s" % (e, why[:300]))
    print("%d expressions agree with numpy and scipy, %d are not modelled, "
          "%d differ" % (good, len(skipped), len(bad)))
    sys.stdout.flush()
    os._exit(1 if bad else 0)
if not a.property:
    p.error("property missing")

import warnings  # noqa: E402
warnings.showwarning = lambda *x, **k: None
seed = int(os.environ.get("VERIF_SEED", "1"))
rc = runner.main(a.property, a.tier, seed, a.only, a.j, a.v)
sys.stdout.flush()
os._exit(rc)
