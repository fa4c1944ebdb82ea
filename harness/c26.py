"""C26: storing, copying and analysing optimization results."""
import copy
import os
import shutil
import tempfile

from .common import *
from .opt import *
from .c22 import make

BOUNDS = ("1..3 runs of 1..3 (4 thorough) evaluations with 1..3 costs, "
          "12 runs and 12 evaluations, runs of different "
          "length, with and without summaries; every "
          "stored value and time")
ASSUMPTIONS = ["pickle restores the numbers it stores (in the symbolic run "
               "the file holds references to the terms)"]


def configs(tier):
    big = tier == "thorough"
    yield {"h": "todict"}
    yield {"h": "todict", "summary": 1}
    yield {"h": "summary"}
    for runs in ([1], [2, 1], [1, 3, 2]) + (([3, 4, 2],) if big else ()):
        for F in (1, 2) + ((3,) if big and len(runs) < 3 else ()):
            yield {"h": "analyse", "runs": runs, "F": F}
            yield {"h": "container", "runs": runs, "F": F}
            yield {"h": "times", "runs": runs, "F": F}
            yield {"h": "times", "runs": runs, "F": F, "nograd": 1}
    for h in ("container", "times"):
        yield {"h": h, "runs": [1] * 12, "F": 1}
        yield {"h": h, "runs": [12], "F": 1}
        yield {"h": h, "runs": [1, 2], "F": 4}
    yield {"h": "scalar", "runs": 3}
    yield {"h": "nosummary"}
    yield {"h": "labels"}
    yield {"h": "optimizer"}


FIELDS = ("final_cost", "indices", "final_parameters", "final_grad_norm",
          "init_parameters", "num_iter", "termination_reason", "status",
          "optimization_stats", "optimizer", "optim_summary")


def result(env, nm, n=1, F=1, T=2, C=2, summary=True, **kw):
    od = env.q("optimization_data")
    ps = env.q("performance_statistics").PerformanceStatistics()
    ps.start_t_opt = env.real(nm + ".start", 0, 1000)
    ps.end_t_opt = ps.start_t_opt + env.real(nm + ".dur", 0.1, 1000)
    ps.cost_func_eval_times = [[env.real("%s.tc%d.%d" % (nm, k, f), 0, 9)
                                for f in range(F)] for k in range(n)]
    ps.grad_func_eval_times = [[env.real("%s.tg%d.%d" % (nm, k, f), 0, 9)
                                for f in range(F)] for k in range(n + 1)]
    lab = ["cost %d" % f for f in range(F)]
    s = None
    if summary:
        s = od.OptimizationSummary(indices=list(lab))
        for k in range(n):
            s.costs.append(env.rarr("%s.c%d" % (nm, k), (F,)))
            s.parameters.append(env.rarr("%s.p%d" % (nm, k), (T, C)))
            s.iter_num += 1
    v = dict(final_cost=env.rarr(nm + ".final", (F,)), indices=lab,
             final_parameters=env.rarr(nm + ".par", (T, C)),
             final_grad_norm=env.real(nm + ".gn"),
             init_parameters=env.rarr(nm + ".init", (T, C)),
             num_iter=env.real(nm + ".nit"), status=env.real(nm + ".status"),
             termination_reason="reason " + nm, optimization_stats=ps,
             optimizer=None, optim_summary=s)
    v.update(kw)
    return od.OptimizationResult(**v), v


def todict(env, cfg):
    """to_dict and from_dict keep every attribute."""
    od = env.q("optimization_data")
    r, v = result(env, "r", summary=bool(cfg.get("summary")),
                  optimizer="the optimizer")
    d = r.to_dict()
    c = od.OptimizationResult.from_dict(d)
    for k in FIELDS:
        env.check("attribute " + k, getattr(r, k) is v[k])
        env.check("restored " + k, getattr(c, k) is v[k])
        env.check("entry " + k, d.get(k) is v[k])
    e = od.OptimizationResult()
    env.check("empty result", all(
        getattr(e, k) is None for k in FIELDS if k != "termination_reason")
        and e.termination_reason == "not started yet")
    e2 = od.OptimizationResult.from_dict(e.to_dict())
    env.check("empty result restored", all(
        getattr(e2, k) == getattr(e, k) for k in FIELDS))


def summary(env, cfg):
    """New summaries are empty and independent of each other."""
    od = env.q("optimization_data")
    a, b = od.OptimizationSummary(), od.OptimizationSummary()
    ps = env.q("performance_statistics")
    p, q = ps.PerformanceStatistics(), ps.PerformanceStatistics()
    for k in ("costs", "gradients", "parameters"):
        getattr(a, k).append(env.real(k))
        env.check("independent " + k, len(getattr(b, k)) == 0
                  and len(getattr(a, k)) == 1)
    for k in ("cost_func_eval_times", "grad_func_eval_times"):
        getattr(p, k).append(env.real(k))
        env.check("independent " + k, len(getattr(q, k)) == 0)
    env.check("empty", b.iter_num == 0 and b.indices is None)
    env.check("not started", q.start_t_opt is None and q.end_t_opt is None
              and q.indices is None)
    x = [env.real("c")]
    c = od.OptimizationSummary(indices=["i"], iter_num=1, costs=x,
                               gradients=[1], parameters=[2])
    env.check("given values", c.costs is x and c.iter_num == 1
              and c.indices == ["i"] and c.gradients == [1]
              and c.parameters == [2])


def fill(env, cfg, **kw):
    dc = env.q("data_container")
    d = dc.DataContainer(storage_path="somewhere", file_name="name.p", **kw)
    vs = []
    for i, n in enumerate(cfg["runs"]):
        r, v = result(env, "r%d" % i, n, cfg["F"])
        d.append_optim_result(r)
        vs.append(v)
    return d, vs


LISTS = ("final_costs", "init_parameters", "final_parameters", "costs",
         "parameters", "status", "optimization_statistics")


def same_data(env, label, d, vs):
    env.check(label + ": number of runs", len(d) == len(vs) and all(
        len(getattr(d, k)) == len(vs) for k in LISTS))
    env.check(label + ": labels", list(d.indices) == list(vs[0]["indices"]))
    env.check(label + ": index", list(d.index) == list(vs[0]["indices"]))
    for i, v in enumerate(vs):
        for k, w in (("final_costs", "final_cost"),
                     ("init_parameters", "init_parameters"),
                     ("final_parameters", "final_parameters"),
                     ("status", "status")):
            env.check_eq("%s: %s" % (label, k), getattr(d, k)[i], v[w])
        s = v["optim_summary"]
        for k in ("costs", "parameters"):
            xs, ys = getattr(d, k)[i], getattr(s, k)
            env.check("%s: number of %s" % (label, k), len(xs) == len(ys))
            for x, y in zip(xs, ys):
                env.check_eq("%s: %s" % (label, k), x, y)
        a, b = d.optimization_statistics[i], v["optimization_stats"]
        for k in ("start_t_opt", "end_t_opt", "cost_func_eval_times",
                  "grad_func_eval_times"):
            env.check_eq("%s: statistics" % label,
                         env.array(getattr(a, k)), env.array(getattr(b, k)))


def leaves(e):
    """The arrays in an entry of a list."""
    if isinstance(e, list):
        return [a for x in e for a in leaves(x)]
    return [e] if getattr(e, "shape", ()) != () else []


def entry(e):
    """Copies of them."""
    if hasattr(e, "cost_func_eval_times"):
        return [list(x) for x in e.cost_func_eval_times
                + e.grad_func_eval_times]
    return [a.copy() for a in leaves(e)]


def container(env, cfg):
    """Appending, copying and storing keep all data."""
    dc = env.q("data_container")
    d, vs = fill(env, cfg, append_time_to_path=False)
    same_data(env, "appended", d, vs)
    c = copy.deepcopy(d)
    same_data(env, "copied", c, vs)
    env.check("file of the copy", c.file_name == "name.p"
              and c.storage_path == "somewhere"
              and c.append_time_to_path is False)
    # the copy is independent
    keep = d.final_parameters[0].copy()
    c.final_parameters[0][0, 0] = env.real("other")
    c.costs[0].append(1)
    c.status.append(3)
    c.indices.append("x")
    env.check_eq("original unchanged", d.final_parameters[0], keep)
    same_data(env, "original", d, vs)
    # arrays changed in place
    keep = {k: [entry(e) for e in getattr(d, k)] for k in LISTS}
    c = copy.deepcopy(d)
    for k in LISTS:
        for e in getattr(c, k):
            for a in (leaves(e) if k != "optimization_statistics" else
                      e.cost_func_eval_times + e.grad_func_eval_times):
                a[0] = 77
    for k in LISTS:
        for e, f in zip(getattr(d, k), keep[k]):
            for a, b in zip(entry(e), f):
                env.check_eq("in place changes of the copy: " + k, a, b)
    # storing
    tmp = tempfile.mkdtemp(prefix="qoptv")
    try:
        with env.imported():
            d.storage_path = tmp
            d.to_pickle()
            where = os.path.join(tmp, "name.p")
            env.check("stored in the path", os.path.exists(where))
            l = dc.DataContainer.from_pickle(where)
            same_data(env, "loaded", l, vs)
            env.check("file of the loaded data", l.file_name == "name.p"
                      and l.storage_path == tmp
                      and l.append_time_to_path is False)
            other = os.path.join(tmp, "other")
            c2 = copy.deepcopy(d)
            c2.to_pickle(other)
            same_data(env, "named file", dc.DataContainer.from_pickle(other), vs)
            l.status.append(1)
            same_data(env, "original after loading", d, vs)
            # stored a second time in the same file
            l.to_pickle(other)
            again = dc.DataContainer.from_pickle(other)
            env.check("stored again", len(again.status) == len(l.status)
                      and again.status[-1] == 1)
    finally:
        shutil.rmtree(tmp)


def nosummary(env, cfg):
    dc = env.q("data_container")
    d = dc.DataContainer(storage_path="x")
    e = dc.DataContainer(storage_path="x")
    env.check("empty", len(d) == 0)
    r, v = result(env, "r", summary=False)
    d.append_optim_result(r)
    env.check("no evaluations", len(d) == 1 and list(d.costs[0]) == []
              and list(d.parameters[0]) == [])
    env.check_eq("final cost", d.final_costs[0], v["final_cost"])
    env.check("containers are independent", len(e) == 0
              and not e.final_costs and not e.status)
    given = dc.DataContainer(
        storage_path="x", final_costs=[env.real("a")], indices=["i"],
        init_parameters=[1], final_parameters=[2], costs=[[3]],
        parameters=[[4]], status=[5], optimization_stats=[6])
    env.check_eq("given data", env.array(
        [given.final_costs[0], given.init_parameters[0],
         given.final_parameters[0], given.costs[0][0],
         given.parameters[0][0], given.status[0],
         given.optimization_statistics[0]]), env.array(
             [env.real("a"), 1, 2, 3, 4, 5, 6]))


def labels(env, cfg):
    """Results of other cost functions are rejected."""
    dc = env.q("data_container")
    d = dc.DataContainer(storage_path="x")
    d.append_optim_result(result(env, "r0")[0])
    keep = [len(getattr(d, k)) for k in LISTS]
    bad = result(env, "r1", indices=["another"])[0]
    env.raises("other labels", AssertionError,
               lambda: d.append_optim_result(bad))
    two = dc.DataContainer(storage_path="x")
    two.append_optim_result(result(env, "t0", F=2)[0])
    lab = list(two.indices)
    for nm, other in (("order", lab[::-1]), ("one", lab[:1]),
                      ("more", lab + ["x"]), ("twice", lab[:1] * 2)):
        bad = result(env, nm, F=2, indices=other)[0]
        env.raises("labels of another order or number", AssertionError,
                   lambda: two.append_optim_result(bad))
        env.check("nothing appended to two costs", len(two) == 1
                  and len(two.final_costs) == 1 and two.indices == lab)
    env.check("nothing appended", [len(getattr(d, k)) for k in LISTS]
              == keep and d.indices == ["cost 0"])


def analyse(env, cfg):
    """Best run and absolute costs."""
    d, vs = fill(env, cfg)
    a = env.q("analyser").Analyser(d)
    runs, F = cfg["runs"], cfg["F"]
    n = a.n_least_square
    tot = [sum((x * x for x in v["final_cost"]), env.num(0)) for v in vs]
    for i in range(len(runs)):
        env.check("smallest squared sum", tot[n] <= tot[i])
    c = a.absolute_costs()
    env.check("shape", tuple(c.shape) == (len(runs), max(runs)))
    for i, m in enumerate(runs):
        for k in range(max(runs)):
            x = c[i, k]
            if k >= m:
                env.check("no value after the end of a run", x != x)
                continue
            env.check_eq("root of the squared sum", x * x, sum(
                (y * y for y in vs[i]["optim_summary"].costs[k]),
                env.num(0)))
            env.check("not negative", x >= 0)
    same_data(env, "unchanged", d, vs)


def scalar(env, cfg):
    """Scalar final costs as minimizing optimizers return them."""
    dc = env.q("data_container")
    f = [env.real("f%d" % i) for i in range(cfg["runs"])]
    d = dc.DataContainer(storage_path="x", final_costs=list(f))
    n = env.q("analyser").Analyser(d).n_least_square
    for x in f:
        env.check("smallest square", f[n] * f[n] <= x * x)


def times(env, cfg):
    """Sums and shares of the evaluation times."""
    d, vs = fill(env, cfg)
    a = env.q("analyser").Analyser(d)
    if cfg.get("nograd"):
        # no gradient was ever evaluated
        for v in vs:
            v["optimization_stats"].grad_func_eval_times = []
    dur, tc, tg = [], [], []
    z = env.num(0)
    for i, v in enumerate(vs):
        s = v["optimization_stats"]
        dur.append(s.end_t_opt - s.start_t_opt)
        for fn, src, out in (
                (a.integral_cost_fkt_times, s.cost_func_eval_times, tc),
                (a.integral_grad_fkt_times, s.grad_func_eval_times, tg)):
            ref = [sum((r[f] for r in src), z) for f in range(cfg["F"])]
            arr = env.array(ref) if len(src) else z
            env.check_eq("time per cost function", fn(i), arr)
            if i == 0:
                env.check_eq("first run by default", fn(), arr)
            out.append(sum(ref, z))
    env.check_eq("duration of the optimizations", a.opt_times(),
                 env.array(dur))
    env.check_eq("total time of costs", a.total_cost_fkt_time(), sum(tc, z))
    env.check_eq("total time of gradients", a.total_grad_fkt_time(),
                 sum(tg, z))
    env.check_eq("share of costs", a.time_share_cost_fkt() * sum(dur, z),
                 sum(tc, z))
    env.check_eq("share of gradients", a.time_share_grad_fkt()
                 * sum(dur, z), sum(tg, z))


def optimizer(env, cfg):
    """Results of two runs of an optimizer in one container."""
    kind = ("ls", "L-BFGS-B")[env.choice("optimizer", 2)]
    sim = Sim(env, 2, 1, 2)
    alg = Algorithm(env, 2, 2, jac="none")
    opt = make(env, {"kind": kind}, sim)
    d = env.q("data_container").DataContainer(storage_path="x")
    logs, res = [], []
    for i in range(2):
        alg.log = []
        d.append_optim_result(opt.run_optimization(
            env.rarr("p%d" % i, (2, 1))))
        logs.append(alg.log)
        res.append(alg.result)
    env.check("labels", list(d.indices) == sim.cost_indices)
    for i in range(2):
        env.check_eq("final cost", d.final_costs[i], res[i].fun)
        env.check_eq("final parameters", d.final_parameters[i],
                     pulse_of(env, res[i].x, 2, 1))
        for (_, x, v), p, c in zip(logs[i], d.parameters[i], d.costs[i]):
            pulse = pulse_of(env, x, 2, 1)
            env.check_eq("parameters", p, pulse)
            env.check_eq("costs", c, env.array(sim.costs(pulse)))
        env.check("lengths", len(d.costs[i]) == len(d.parameters[i]) == 2)
