"""Run the harnesses of one property: explore, validate, replay, report."""
import importlib
import json
import hashlib
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import loader, scalar as sc
from .env import CheckFailed, ConEnv, SymEnv, draw_value
from .explore import (DomainError, Inconclusive, PathCtx, Stats, Violation,
                      input_atoms, model_values, MAX_PATHS)
from .scalar import (AssumptionFailed, Assignment, Infeasible, S,
                     Unsupported)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "evidence")


class Timeout(BaseException):
    pass


_armed = [False, False]     # armed, expired


def _alarm(*a):
    # fires again every second: an exception raised inside a destructor or a
    # callback of the solver is lost
    if _armed[0]:
        _armed[1] = True
        raise Timeout()


def tr(e, n=6):
    tb = traceback.extract_tb(e.__traceback__)[-n:]
    return " <- ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno,
                                     f.name) for f in reversed(tb))


# ---------------------------------------------------------------------------
# concrete runs


def run_concrete(harness, cfg, values, seed=0, stop=True):
    """-> (status, failures, env); status in ok / fail / assume."""
    env = ConEnv(values, random.Random(seed), stop=stop)
    old = sys.stdout
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sys.stdout = open(os.devnull, "w")
            try:
                harness(env, cfg)
            finally:
                sys.stdout.close()
                sys.stdout = old
    except AssumptionFailed:
        return "assume", [], env
    except CheckFailed as f:
        return "fail", [(f.label, f.detail)], env
    except Timeout:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return "fail", env.failures + [
            ("raised %s" % type(e).__name__, "%s | %s" % (e, tr(e)))], env
    finally:
        env.close()
    return ("fail" if env.failures else "ok"), env.failures, env


# ---------------------------------------------------------------------------
# coverage of the code under test

_TOOL = 3
_seen = set()


def _start_cov():
    m = sys.monitoring
    try:
        m.use_tool_id(_TOOL, "symx")
    except ValueError:
        return
    prefix = os.path.join(loader.REPO, "qopt") + os.sep

    def cb(code, off):
        if code.co_filename.startswith(prefix) and \
                not code.co_name.startswith("<"):
            _seen.add(os.path.basename(code.co_filename)[:-3] + "." +
                      code.co_qualname)
        return m.DISABLE
    m.register_callback(_TOOL, m.events.PY_START, cb)
    m.restart_events()
    m.set_events(_TOOL, m.events.PY_START)


def _stop_cov():
    m = sys.monitoring
    try:
        m.set_events(_TOOL, 0)
        m.free_tool_id(_TOOL)
    except ValueError:
        pass


# ---------------------------------------------------------------------------


def path_matches(pc, asg):
    for z, atoms in pc:
        subs = []
        for a in atoms:
            at = sc.space().atoms[a]
            v = sc.eval_atom(a, asg)
            subs.append((at.z, z3.RealVal(str(Fraction(v)))))
            if at.zinv is not None and v:
                subs.append((at.zinv, z3.RealVal(str(1 / Fraction(v)))))
        e = z3.simplify(z3.substitute(z, *subs))
        if not z3.is_true(e):
            return False
    return True


def num(x, asg):
    if isinstance(x, S):
        return complex(x.evalf(asg))
    return complex(x)


def run_config(job):
    modname, cfg, tier, seed, budget = job
    signal.signal(signal.SIGALRM, _alarm)
    _armed[:] = [True, False]
    signal.setitimer(signal.ITIMER_REAL, int(budget), 1)
    res = {"cfg": cfg, "status": "ok", "error": None, "violation": None,
           "validated": 0, "unmatched": 0, "samples": [], "functions": [],
           "asserts": 0, "notes": [], "witness": 0, "wall": 0,
           "unsupported": False}
    t0 = time.time()
    try:
        _run_config(modname, cfg, tier, seed, res)
    except BaseException as e:
        _armed[0] = False
        res["status"] = "error"
        res["error"] = "time budget of %ds exhausted" % budget \
            if _armed[1] else \
            "internal %s: %s | %s" % (type(e).__name__, e, tr(e))
    _armed[0] = False
    signal.setitimer(signal.ITIMER_REAL, 0)
    res["wall"] = time.time() - t0
    res["functions"] = sorted(_seen)
    _seen.clear()
    return res


def _run_config(modname, cfg, tier, seed, res):
    mod = importlib.import_module(modname)
    harness = getattr(mod, cfg["h"])
    z3.set_param("smt.random_seed", 1)
    space = sc.Space()
    sc.set_space(space)
    stats = Stats()
    res["stats"] = stats.__dict__
    paths = []
    work = [[]]
    candidate = None      # (label, values list, detail)
    problem = more = None
    unseen = cfg.get("strict_div", False)
    _start_cov()
    ranges, meta = {}, {}
    while work:
        prefix = work.pop()
        ctx = PathCtx(prefix, stats, cfg.get("timeout_ms", 20000), unseen)
        sc.set_ctx(ctx)
        env = SymEnv(ctx)
        env.ranges = ranges
        # range assumptions have to be issued on every path
        env.ranges = {}
        dead = False
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                harness(env, cfg)
        except Infeasible:
            dead = True
        except Violation as v:
            candidate = (v.label, v.values, v.detail)
            more = v.more
        except DomainError as e:
            candidate = ("undefined arithmetic: " + str(e),
                         [_model(ctx)], tr(e))
        except (Unsupported, Inconclusive) as e:
            problem = "%s: %s | %s" % (type(e).__name__, e, tr(e))
            res["unsupported"] = isinstance(e, Unsupported)
        except Timeout:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            if _armed[1]:
                raise Timeout()
            candidate = ("raised %s" % type(e).__name__, [_model(ctx)],
                         "%s | %s" % (e, tr(e)))
        finally:
            env.close()
        ranges.update(env.ranges)
        for k, v in env.meta.items():
            if isinstance(v, set):
                meta.setdefault(k, set()).update(v)
        work.extend(ctx.new_prefixes)
        if dead:
            stats.infeasible += 1
            continue
        stats.paths += 1
        if candidate or problem:
            break
        # vacuity: the end of the path is reachable and asserted something
        st, _ = ctx.query([], set(), 5000)
        if st == "unsat":
            stats.infeasible += 1
            stats.paths -= 1
            continue
        if env.reached and st == "sat":
            stats.sat_witness += 1
        if not env.reached:
            res["notes"].append("a path asserts nothing")
        paths.append((ctx.pc, env.observations))
        res["asserts"] += env.reached
        if stats.paths > cfg.get("max_paths", MAX_PATHS):
            problem = "more than %d paths" % stats.paths
            break
    _stop_cov()
    res["witness"] = stats.sat_witness
    if candidate is not None:
        label, vals, detail = candidate
        ints = meta.get("ints", set())
        tries = [v for v in vals if v]
        for v in list(tries):
            tries.append({k: x for k, x in v.items() if k in ints})
        for k in range(6):
            tries.append({})
        base = tries[0] if tries else {}

        def all_tries():
            yield from tries
            if more is not None:
                yield from more()
        for i, v in enumerate(all_tries()):
            st, fails, cenv = run_concrete(harness, cfg, v, seed + i)
            if st == "fail":
                res["status"] = "violation"
                res["violation"] = {
                    "label": fails[0][0], "detail": fails[0][1],
                    "predicted": label, "predicted_detail": detail,
                    "values": cenv.used}
                return
        res["status"] = "error"
        res["error"] = ("counterexample does not reproduce on the real "
                        "code: %s (%s) %s" % (label, detail, base))
        return
    # translator validation / replay on the real code
    nval = cfg.get("validate", 2 if tier == "quick" else 4)
    done = 0
    for k in range(nval * 15):
        if done >= nval:
            break
        h = hashlib.sha256(("%s|%s|%d|%d" % (
            modname, json.dumps(cfg, sort_keys=True), seed, k)).encode())
        vseed = int.from_bytes(h.digest()[:6], "big")
        st, fails, cenv = run_concrete(harness, cfg, {}, vseed)
        if st == "assume":
            continue
        done += 1
        if st == "fail":
            res["status"] = "violation"
            res["violation"] = {
                "label": fails[0][0], "detail": fails[0][1],
                "predicted": "not predicted (found while replaying)"
                if not problem else "not decided: " + problem,
                "predicted_detail": "", "values": cenv.used}
            return
        if problem:
            continue
        vals = dict(cenv.used)
        for n in input_atoms():
            vals.setdefault(n, 0.0)
        asg = Assignment(vals)
        hit = None
        for pc, obs in paths:
            try:
                if path_matches(pc, asg):
                    hit = obs
                    break
            except (OverflowError, ValueError, ZeroDivisionError):
                continue
        if hit is None:
            res["unmatched"] += 1
            continue
        err = compare(hit, cenv.observations, asg)
        if err:
            res["status"] = "error"
            res["error"] = "encoding and real code disagree: " + err + \
                " inputs %s" % vals
            return
        res["validated"] += 1
        if len(res["samples"]) < 1:
            res["samples"].append({
                "config": cfg, "inputs": {k: round(float(v), 6) for k, v in
                                          list(cenv.used.items())[:12]},
                "observed": [[l, [str(np.round(x, 6)) for x in
                                  np.atleast_1d(flat(v))[:3]]]
                             for l, v in cenv.observations[:3]]})
    if problem:
        # a construct outside the model: nothing is claimed about this
        # configuration (its replays on the real code hold)
        res["status"] = "undecided" if res["unsupported"] and done \
            else "error"
        res["error"] = problem
        return
    if not paths:
        res["status"] = "error"
        res["error"] = "no feasible path (vacuous harness)"
    elif res["asserts"] == 0:
        res["status"] = "error"
        res["error"] = "no assertion reached (vacuous harness)"
    elif stats.sat_witness == 0 and res["validated"] == 0:
        res["status"] = "error"
        res["error"] = "no reachability witness"


def flat(v):
    return np.asarray(v).reshape(-1)


def _model(ctx):
    st, m = ctx.query([], set(), 5000, want_model=True)
    if st != "sat":
        return {}
    return model_values(m, input_atoms())


def compare(sym, con, asg):
    if [l for l, _ in sym] != [l for l, _ in con]:
        a = [l for l, _ in sym]
        b = [l for l, _ in con]
        return "observation sequence %s vs %s" % (a[:5], b[:5])
    for (l, xs), (_, ys) in zip(sym, con):
        xs = [num(x, asg) for x in (xs if isinstance(xs, (list, tuple))
                                    else flat(xs))]
        ys = [complex(y) for y in flat(ys)]
        if len(xs) != len(ys):
            return "%s: %d vs %d values" % (l, len(xs), len(ys))
        scale = max([1.0] + [abs(y) for y in ys if y == y])
        for i, (x, y) in enumerate(zip(xs, ys)):
            if x != x and y != y:
                continue
            if not abs(x - y) <= 1e-6 * scale:
                return "%s[%d]: encoding %s, code %s" % (l, i, x, y)
    return None


# ---------------------------------------------------------------------------


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches_known(prop, cfg, viol, entry):
    if entry.get("property") != prop or entry.get("status") != "open":
        return False
    for k, v in entry.get("config", {}).items():
        if cfg.get(k) != v:
            return False
    return entry["label"] in (viol["label"], viol["label"].split(":")[0])


def main(prop, tier, seed, only=None, jobs=None, verbose=False):
    t0 = time.time()
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    modname = "harness." + prop.lower()
    mod = importlib.import_module(modname)
    for m in REAL_MODULES:
        importlib.import_module("qopt." + m)
    cfgs = [c for c in mod.configs(tier)]
    if only:
        cfgs = [c for c in cfgs if only in json.dumps(c)]
    budget = 240 if tier == "quick" else 1500
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    # longest first when the harness gives weights
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get("w", 1))
    tasks = [(modname, cfgs[i], tier, seed, cfgs[i].get("budget", budget))
             for i in order]
    results = []
    known = known_findings()

    def new(r):
        return r["status"] == "violation" and not any(
            matches_known(prop, r["cfg"], r["violation"], e) for e in known)
    if jobs == 1 or len(tasks) == 1:
        for t in tasks:
            results.append(run_config(t))
            if verbose:
                show(results[-1])
    else:
        mp = multiprocessing.get_context("fork")
        with mp.Pool(min(jobs, len(tasks)), maxtasksperchild=20) as pool:
            for r in pool.imap_unordered(run_config, tasks, chunksize=1):
                results.append(r)
                if verbose:
                    show(r)
                if time.time() - t0 > (500 if tier == "quick" else 3000) \
                        and any(new(x) for x in results):
                    # enough is known; do not lose it to a time limit
                    pool.terminate()
                    break
    viol, errs, kf, open_ = [], [], [], []
    for r in results:
        if r["status"] == "violation":
            hit = [e for e in known
                   if matches_known(prop, r["cfg"], r["violation"], e)]
            if hit:
                kf.append((hit[0], r))
            else:
                viol.append(r)
        elif r["status"] == "error":
            errs.append(r)
        elif r["status"] == "undecided":
            open_.append(r)
    if 2 * len(open_) > len(results):
        errs += open_
        open_ = []
    tot = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r["functions"]))
    validated = sum(r["validated"] for r in results)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("branches", 0) + tot.get("asserts", 0),
            "traces_validated_against_impl": validated,
            "samples": [s for r in results for s in r["samples"]][:6],
            "configurations": len(results),
            "configurations_decided": len(results) - len(errs) - len(open_),
            "undecided": [{"config": r["cfg"], "reason": r["error"]}
                          for r in open_],
            "paths": tot.get("paths", 0),
            "branch_decisions": tot.get("branches", 0),
            "assertions_discharged": tot.get("asserts", 0),
            "asserted_elements": tot.get("elements", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_seconds": round(tot.get("solver_s", 0.0), 3),
            "infeasible_paths": tot.get("infeasible", 0),
            "reachability_witnesses": sum(r["witness"] for r in results),
            "domain_assumptions": tot.get("domain", 0),
            "functions_encoded": funcs,
            "validation_runs_on_other_paths": sum(r["unmatched"]
                                                  for r in results),
            "bounds": getattr(mod, "BOUNDS", ""),
            "known_findings": [e["id"] for e, _ in kf],
            "inconclusive_or_error": [
                {"config": r["cfg"], "error": r["error"]} for r in errs],
        },
        "assumptions": COMMON_ASSUMPTIONS + list(
            getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    with open(os.path.join(OUT, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e, r in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for r in viol[:5]:
        v = r["violation"]
        name = hashlib.sha256(json.dumps(r["cfg"], sort_keys=True).encode()
                              ).hexdigest()[:10]
        path = os.path.join(OUT, "replays", "%s-%s.json" % (prop, name))
        with open(path, "w") as f:
            json.dump({"property": prop, "config": r["cfg"],
                       "violation": v}, f, indent=1, default=str)
        print("  %s config=%s" % (v["label"], json.dumps(r["cfg"])))
        print("  predicted: %s; observed: %s" % (v["predicted"],
                                                 v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for r in errs[:8]:
        if not verbose:
          print("ERROR config=%s: %s" % (json.dumps(r["cfg"]),
                                      str(r["error"])[:600]))
    for r in open_[:8]:
        print("UNDECIDED config=%s: %s" % (json.dumps(r["cfg"]),
                                           str(r["error"])[:400]))
    print("%s %s: %d configurations, %d undecided, %d paths, %d assertions, %d queries "
          "(%.1fs solver), %d validated, %d violations, %d errors, %.1fs" % (
              prop, tier, len(results), len(open_), tot.get("paths", 0),
              tot.get("asserts", 0), tot.get("queries", 0),
              tot.get("solver_s", 0.0), validated, len(viol), len(errs),
              wall))
    if viol:
        return 1
    if errs:
        return 2
    if not results or validated == 0:
        print("ERROR: nothing validated")
        return 2
    return 0


REAL_MODULES = ["matrix", "noise", "transfer_function",
                "amplitude_functions", "solver_algorithms", "cost_functions",
                "simulator", "optimize", "data_container",
                "optimization_data", "analyser", "parallel",
                "performance_statistics", "util", "plotting",
                "energy_spectrum"]

COMMON_ASSUMPTIONS = [
    "floating point arithmetic is encoded as exact arithmetic over the "
    "reals (complex numbers as pairs); rounding, overflow and NaN "
    "propagation are outside the claim",
    "float literals denote the simple rational they approximate "
    "(denominator <= 20000, within 1e-14 relative), numpy.pi a real in "
    "(3.14159265, 3.14159266)",
    "divisors are assumed nonzero, square root arguments nonnegative "
    "(domain_assumptions counts the additional assumptions of this kind)",
    "numpy/scipy primitives are modelled by symx/npshim.py and "
    "symx/scishim.py; the models are compared with the real libraries on "
    "every run (traces_validated_against_impl)",
    "scipy.linalg.expm / expm_frechet: uninterpreted matrix function with "
    "its Frechet derivative, linear in the direction",
]


_shown = {}


def show(r):
    if r["status"] == "ok" and r["wall"] < 15:
        return
    k = str(r["error"])[:120] + str(r["violation"] and
                                    r["violation"]["label"])
    _shown[k] = _shown.get(k, 0) + 1
    if r["status"] != "ok" and _shown[k] > 2:
        return
    s = r.get("stats", {})
    print("%-9s %6.1fs paths=%d q=%d val=%d %s %s" % (
        r["status"], r["wall"], s.get("paths", 0), s.get("queries", 0),
        r["validated"], json.dumps(r["cfg"]), (r["error"] or "")[:500] or
        (r["violation"] and (r["violation"]["label"] + " :: " +
                             r["violation"]["detail"][:200] + " :: pred " +
                             r["violation"]["predicted"] + " " +
                             str(r["violation"]["predicted_detail"])[:300]))
        or ""), flush=True)
